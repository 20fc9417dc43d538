From 940556cb1ba76da8c3a959b283f45360341efefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 01/32] fix: return an error instead of panicking on metadata
 without a valid signed type

---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..fa0b521 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -881,7 +881,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no valid signed section"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no valid _type"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From 4d3de712ca22494532a75358956e3186133be650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 02/32] fix: reject null keys, roles, meta and targets entries
 when parsing metadata

---
 metadata/marshal.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..a91b12a 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -41,6 +42,12 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNull("keys", s.Keys); err != nil {
+		return err
+	}
+	if err := checkNoNull("roles", s.Roles); err != nil {
+		return err
+	}
 	*signed = RootType(s)
 
 	var dict map[string]any
@@ -77,6 +84,9 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNull("meta", s.Meta); err != nil {
+		return err
+	}
 	*signed = SnapshotType(s)
 
 	var dict map[string]any
@@ -111,6 +121,9 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNull("meta", s.Meta); err != nil {
+		return err
+	}
 	*signed = TimestampType(s)
 
 	var dict map[string]any
@@ -148,6 +161,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNull("targets", s.Targets); err != nil {
+		return err
+	}
 	*signed = TargetsType(s)
 
 	// populate the path field for each target
@@ -440,6 +456,9 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if err := checkNoNull("keys", a.Keys); err != nil {
+		return err
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
@@ -553,6 +572,16 @@ func (b HexBytes) String() string {
 	return hex.EncodeToString(b)
 }
 
+// checkNoNull verifies that no entry of a decoded JSON object is null
+func checkNoNull[V any](field string, m map[string]*V) error {
+	for name, v := range m {
+		if v == nil {
+			return ErrValue{Msg: fmt.Sprintf("null entry %s in %s", name, field)}
+		}
+	}
+	return nil
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From 5cbeca98d9a32c263ab2e7352408110040088cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 03/32] fix: refuse a timestamp without snapshot information
 instead of crashing on it

---
 metadata/trustedmetadata/trustedmetadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index 0792493..098a9e6 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -111,6 +111,10 @@ func (trusted *TrustedMetadata) UpdateTimestamp(timestampData []byte) (*metadata
 	if newTimestamp.Signed.Type != metadata.TIMESTAMP {
 		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("expected %s, got %s", metadata.TIMESTAMP, newTimestamp.Signed.Type)}
 	}
+	// check that the snapshot information is present
+	if _, ok := newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]; !ok {
+		return nil, metadata.ErrRepository{Msg: "timestamp does not contain information for snapshot"}
+	}
 	// verify that new timestamp is signed by trusted root
 	err = trusted.Root.VerifyDelegate(metadata.TIMESTAMP, newTimestamp)
 	if err != nil {
-- 
2.43.0


From 5b6c74c623ab3d29f1d485e9f2ba57e0ce1e2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 04/32] fix: return an error for a delegated role missing from
 snapshot instead of crashing

---
 metadata/updater/updater.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..1a9ac0c 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From 0763f8f97bf853e82957e5fb6458626943fed835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 05/32] fix: visit delegated roles in the order the metadata
 lists them

---
 metadata/updater/updater.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 1a9ac0c..27355d9 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -547,7 +547,8 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			// note that this may be a slow operation if there are many
 			// delegated roles
 			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
+			for _, child := range orderedRoleNames(targets.Signed.Delegations, roles) {
+				terminating := roles[child]
 				log.Info("Adding child role", "role", child)
 				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
 				if terminating {
@@ -572,6 +573,25 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 	return nil, fmt.Errorf("target %s not found", targetFilePath)
 }
 
+// orderedRoleNames returns the names of the given applicable roles in the
+// order in which they appear in the delegations
+func orderedRoleNames(delegations *metadata.Delegations, roles map[string]bool) []string {
+	names := []string{}
+	if delegations.Roles == nil {
+		// succinct delegations have exactly one applicable role
+		for name := range roles {
+			names = append(names, name)
+		}
+		return names
+	}
+	for _, role := range delegations.Roles {
+		if _, ok := roles[role.Name]; ok {
+			names = append(names, role.Name)
+		}
+	}
+	return names
+}
+
 // persistMetadata writes metadata to disk atomically to avoid data loss
 func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	log := metadata.GetLogger()
-- 
2.43.0


From 99f0d1b565da3060d4d6e979dbd1d366f4505b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 06/32] fix: prefix the hash to the last path segment of nested
 targets

---
 metadata/updater/updater.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 27355d9..28847fe 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -19,6 +19,7 @@ import (
 	"net/http"
 	"net/url"
 	"os"
+	"path"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -225,14 +226,9 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
-			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
-		} else {
-			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
-		}
+		// [<dir-prefix>/]<hash>.<target-name>
+		dirName, baseName := path.Split(targetFilePath)
+		targetFilePath = fmt.Sprintf("%s%s.%s", dirName, hashes, baseName)
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
 	data, err := update.cfg.Fetcher.DownloadFile(fullURL, targetFile.Length, time.Second*15)
-- 
2.43.0


From 7ecd833daff3602879870a4fcb57748a559fee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 07/32] fix: return the multi-repository target info that
 reached the threshold, not the last one seen

---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..7d278e3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -261,7 +261,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -272,7 +272,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From 55ee0fcd93b3f9ecd2ed23e9bfd891837f2e005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 08/32] fix: reject unusable multi-repository map files instead
 of crashing on them

---
 metadata/multirepo/multirepo.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7d278e3..9218a3e 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -69,8 +69,28 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 		return nil, err
 	}
 
+	if mapFile == nil {
+		return nil, fmt.Errorf("failed to create multi-repository config: empty map file")
+	}
+
+	// make sure the mappings only refer to repositories from the repository list
+	for _, eachMap := range mapFile.Mapping {
+		if eachMap == nil {
+			return nil, fmt.Errorf("empty mapping in map file")
+		}
+		for _, repo := range eachMap.Repositories {
+			if _, ok := mapFile.Repositories[repo]; !ok {
+				return nil, fmt.Errorf("mapping refers to unknown repository - %s", repo)
+			}
+		}
+	}
+
 	// make sure we have enough trusted root metadata files provided based on the repository list
-	for repo := range mapFile.Repositories {
+	for repo, urls := range mapFile.Repositories {
+		// check if we have a URL for this repository
+		if len(urls) == 0 {
+			return nil, fmt.Errorf("no URL provided for repository - %s", repo)
+		}
 		// check if we have a trusted root metadata for this repository
 		_, ok := roots[repo]
 		if !ok {
-- 
2.43.0


From 01ff1d701ed5511825a48d9538018fa674ab36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 09/32] fix: allow a multi-repository config without a targets
 directory

---
 metadata/multirepo/multirepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 9218a3e..1d4b6f7 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -355,6 +355,10 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 		return nil
 	}
 	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+		// LocalTargetsDir is optional
+		if path == "" && cfg.LocalMetadataDir != "" {
+			continue
+		}
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From f9c3c86aa4cea32a9bbdebfa6565ac3f9e497741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 10/32] fix: keep each repository metadata folder inside the
 configured directory

---
 metadata/multirepo/multirepo.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 1d4b6f7..0d23820 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -14,6 +14,7 @@ package multirepo
 import (
 	"encoding/json"
 	"fmt"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -136,7 +137,10 @@ func (client *MultiRepoClient) initTUFClients() error {
 		}
 
 		// path of where each of the repository's metadata files will be persisted
-		metadataDir := filepath.Join(client.Config.LocalMetadataDir, repoName)
+		if repoName == "" || repoName == "." || repoName == ".." {
+			return fmt.Errorf("invalid repository name - %q", repoName)
+		}
+		metadataDir := filepath.Join(client.Config.LocalMetadataDir, url.QueryEscape(repoName))
 
 		// location of where the target files will be downloaded (propagated to each client from the multi-repo config)
 		// WARNING: Do note that using a single folder for storing targets from various repositories as it might lead to a conflict
-- 
2.43.0


From c6b00a9d8a2397fdc434f6ab8df42815fdcbbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 11/32] fix: reject succinct delegations with a bit length
 outside 1 to 32

---
 metadata/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index a91b12a..ee5b27e 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -533,6 +533,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.BitLength < 1 || a.BitLength > 32 {
+		return ErrValue{Msg: fmt.Sprintf("bit_length must be between 1 and 32, got %d", a.BitLength)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From 14ac10704916e9fa7861a9722f985f930436035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 12/32] fix: reject roles with a threshold below one when
 parsing metadata

---
 metadata/marshal.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index ee5b27e..41cecee 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -423,6 +423,9 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if err := checkThreshold(a.Threshold); err != nil {
+		return err
+	}
 	*role = Role(a)
 
 	var dict map[string]any
@@ -499,6 +502,9 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if err := checkThreshold(a.Threshold); err != nil {
+		return err
+	}
 	*role = DelegatedRole(a)
 
 	var dict map[string]any
@@ -536,6 +542,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if a.BitLength < 1 || a.BitLength > 32 {
 		return ErrValue{Msg: fmt.Sprintf("bit_length must be between 1 and 32, got %d", a.BitLength)}
 	}
+	if err := checkThreshold(a.Threshold); err != nil {
+		return err
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
@@ -585,6 +594,14 @@ func checkNoNull[V any](field string, m map[string]*V) error {
 	return nil
 }
 
+// checkThreshold verifies that a role requires at least one signature
+func checkThreshold(threshold int) error {
+	if threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", threshold)}
+	}
+	return nil
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From faf3354bc7cf09768d1ba8e6b5a26ad6a6c2e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 13/32] fix: reject delegated roles named like a top-level role
 or without a name

---
 metadata/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 41cecee..8f1931a 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -505,6 +505,10 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	if err := checkThreshold(a.Threshold); err != nil {
 		return err
 	}
+	switch a.Name {
+	case "", ROOT, TIMESTAMP, SNAPSHOT, TARGETS:
+		return ErrValue{Msg: fmt.Sprintf("invalid delegated role name %q", a.Name)}
+	}
 	*role = DelegatedRole(a)
 
 	var dict map[string]any
-- 
2.43.0


From be82ea26bdc10806f6907e3b7a3cb6d53c8fa0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 14/32] fix: fall back to the remote repository when a cached
 metadata file does not parse

---
 metadata/updater/updater.go | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 28847fe..6249361 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -296,15 +296,11 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local timestamp is not valid")
-			} else {
-				// another error
-				return err
-			}
+			// local timestamp is not valid (or not even parsable), proceed downloading from remote
+			log.Info("Local timestamp is not valid", "error", err.Error())
+		} else {
+			log.Info("Local timestamp is valid")
 		}
-		log.Info("Local timestamp is valid")
 		// all okay, local timestamp exists and it is valid, nevertheless proceed with downloading from remote
 	}
 	// load from remote (whether local load succeeded or not)
@@ -344,14 +340,8 @@ func (update *Updater) loadSnapshot() error {
 		// successfully read a local snapshot metadata, so let's try to verify and load it to the trusted metadata set
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
-			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local snapshot is not valid")
-			} else {
-				// another error
-				return err
-			}
+			// this means snapshot verification/loading failed: it is not valid (or not even parsable), proceed downloading from remote
+			log.Info("Local snapshot is not valid", "error", err.Error())
 		} else {
 			// this means snapshot verification/loading succeeded
 			log.Info("Local snapshot is valid: not downloading new one")
@@ -410,14 +400,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		// successfully read a local targets metadata, so let's try to verify and load it to the trusted metadata set
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
-			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local role is not valid", "role", roleName)
-			} else {
-				// another error
-				return nil, err
-			}
+			// this means targets verification/loading failed: it is not valid (or not even parsable), proceed downloading from remote
+			log.Info("Local role is not valid", "role", roleName, "error", err.Error())
 		} else {
 			// this means targets verification/loading succeeded
 			log.Info("Local role is valid: not downloading new one", "role", roleName)
-- 
2.43.0


From 263ef62df6ae30271de995bf8ee950335158cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 15/32] fix: persist metadata through a temporary file in the
 metadata folder and never leak it

---
 metadata/updater/updater.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 6249361..a31b8c3 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -581,30 +581,28 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	}
 	// caching enabled, proceed with persisting the metadata locally
 	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
-	cwd, err := os.Getwd()
-	if err != nil {
-		return err
-	}
-	// create a temporary file
-	file, err := os.CreateTemp(cwd, "tuf_tmp")
+	// create a temporary file in the same folder so it can be atomically renamed
+	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
 		return err
 	}
 	// write the data content to the temporary file
-	err = os.WriteFile(file.Name(), data, 0644)
+	_, err = file.Write(data)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	// if all okay, rename the temporary file to the desired one
+	if err == nil {
+		err = os.Rename(file.Name(), fileName)
+	}
 	if err != nil {
-		// delete the temporary file if there was an error while writing
+		// delete the temporary file if there was an error
 		errRemove := os.Remove(file.Name())
 		if errRemove != nil {
 			log.Info("Failed to delete temporary file", "name", file.Name())
 		}
 		return err
 	}
-	// if all okay, rename the temporary file to the desired one
-	err = os.Rename(file.Name(), fileName)
-	if err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 59c36097298afb3bb06cbe8ccc60c76cd62e0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 16/32] fix: read cached delegated metadata from the escaped
 name it was stored under

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index a31b8c3..10f0a94 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -392,7 +392,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From c2446ef6a53057cf4bfcde65b6029743d71a1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 17/32] fix: build local target paths as file paths so distinct
 targets never share a file

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 10f0a94..340ced5 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -625,7 +625,7 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
 	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	return filepath.Join(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path)), nil
 }
 
 // loadLocalMetadata reads a local <roleName>.json file and returns its bytes
-- 
2.43.0


From 8316d23ab7dffc9163c473cf5611054ebbe53287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 18/32] fix: match errors of the base kinds whatever their
 message

---
 metadata/errors.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index 4086720..34a66b7 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -32,6 +32,11 @@ func (e ErrRepository) Error() string {
 	return fmt.Sprintf("repository error: %s", e.Msg)
 }
 
+// ErrRepository matches every error of its kind
+func (e ErrRepository) Is(target error) bool {
+	return target == ErrRepository{}
+}
+
 // ErrUnsignedMetadata - An error about metadata object with insufficient threshold of signatures
 type ErrUnsignedMetadata struct {
 	Msg string
@@ -113,6 +118,11 @@ func (e ErrDownload) Error() string {
 	return fmt.Sprintf("download error: %s", e.Msg)
 }
 
+// ErrDownload matches every error of its kind
+func (e ErrDownload) Is(target error) bool {
+	return target == ErrDownload{}
+}
+
 // ErrDownloadLengthMismatch - Indicate that a mismatch of lengths was seen while downloading a file
 type ErrDownloadLengthMismatch struct {
 	Msg string
@@ -151,6 +161,11 @@ func (e ErrValue) Error() string {
 	return fmt.Sprintf("value error: %s", e.Msg)
 }
 
+// ErrValue matches every error of its kind
+func (e ErrValue) Is(target error) bool {
+	return target == ErrValue{}
+}
+
 // TypeError
 type ErrType struct {
 	Msg string
@@ -160,6 +175,11 @@ func (e ErrType) Error() string {
 	return fmt.Sprintf("type error: %s", e.Msg)
 }
 
+// ErrType matches every error of its kind
+func (e ErrType) Is(target error) bool {
+	return target == ErrType{}
+}
+
 // RuntimeError
 type ErrRuntime struct {
 	Msg string
@@ -168,3 +188,8 @@ type ErrRuntime struct {
 func (e ErrRuntime) Error() string {
 	return fmt.Sprintf("runtime error: %s", e.Msg)
 }
+
+// ErrRuntime matches every error of its kind
+func (e ErrRuntime) Is(target error) bool {
+	return target == ErrRuntime{}
+}
-- 
2.43.0


From ca3e264b4a2e126eca9e7afdab3a81b7226c621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 19/32] fix: never download delegated metadata in local mode

---
 metadata/updater/updater.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 340ced5..864d814 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -410,6 +410,9 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 	}
 	// local "roleName" does not exist or is invalid, update from remote
 	log.Info("Failed to load local role", "role", roleName)
+	if update.cfg.UnsafeLocalMode {
+		return nil, fmt.Errorf("no valid local metadata for %s and local mode forbids downloading it", roleName)
+	}
 	if update.trusted.Snapshot == nil {
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
-- 
2.43.0


From 46e00b5d4c1b0ced5fe9646ab892a83ead5c14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 20/32] fix: refuse ed25519 keys of the wrong length instead of
 crashing on them

---
 metadata/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..0d1c849 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,9 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key")
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
-- 
2.43.0


From 014baf3337b9c3fabfa1ae5416c20f4f3466e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 21/32] fix: verify only the bin names a succinct delegation
 describes

---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index fa0b521..a7fa946 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -280,6 +280,10 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 			}
 		} else if i.Signed.Delegations.SuccinctRoles != nil {
+			// the delegated role is not one of the bins, no need to proceed
+			if !i.Signed.Delegations.SuccinctRoles.IsDelegatedRole(delegatedRole) {
+				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
+			}
 			roleKeyIDs = i.Signed.Delegations.SuccinctRoles.KeyIDs
 			roleThreshold = i.Signed.Delegations.SuccinctRoles.Threshold
 		}
-- 
2.43.0


From 3a4efd894172e1f49fb433aa8ea5167b59e0fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 22/32] fix: accept bin names only in the exact form they are
 generated in

---
 metadata/metadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a7fa946..9dd058b 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -640,6 +640,11 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 		return false
 	}
 
+	// make sure this is the exact name of that bin, e.g. lowercase and without a sign
+	if fmt.Sprintf("%0*x", suffixLen, value) != suffix {
+		return false
+	}
+
 	// check if the bin we calculated is indeed within the range of what we support
 	return (value >= 0) && (value < int64(numberOfBins))
 }
-- 
2.43.0


From 16e1c4622106cc0e90bebec1d69e512526bb2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 23/32] fix: count a key listed under several key ids only once
 towards the threshold

---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 9dd058b..e57c6a6 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -17,6 +17,7 @@ import (
 	"crypto/hmac"
 	"crypto/sha256"
 	"crypto/sha512"
+	"crypto/x509"
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
@@ -368,8 +369,13 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-			// save the verified keyID only if verification passed
-			signingKeys[keyID] = true
+			// save the verified key only if verification passed; a key listed
+			// under several keyIDs counts only once
+			keyDER, err := x509.MarshalPKIXPublicKey(publicKey)
+			if err != nil {
+				return err
+			}
+			signingKeys[string(keyDER)] = true
 			log.Info("Verified with key", "role", delegatedRole, "ID", keyID)
 		}
 	}
-- 
2.43.0


From 39ff49cd730b3f16b6afccca4ffb5f24134fbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 24/32] fix: accept RSASSA-PSS signatures, the scheme RSA keys
 are declared with

---
 metadata/metadata.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index e57c6a6..b3c4d71 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -15,6 +15,7 @@ import (
 	"bytes"
 	"crypto"
 	"crypto/hmac"
+	"crypto/rsa"
 	"crypto/sha256"
 	"crypto/sha512"
 	"crypto/x509"
@@ -365,7 +366,16 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			return ErrType{Msg: "unknown delegated metadata type"}
 		}
 		// verify if the signature for that payload corresponds to the given key
-		if err := verifier.VerifySignature(bytes.NewReader(sign.Signature), bytes.NewReader(payload)); err != nil {
+		err = verifier.VerifySignature(bytes.NewReader(sign.Signature), bytes.NewReader(payload))
+		if rsaKey, ok := publicKey.(*rsa.PublicKey); ok && err != nil {
+			// not a PKCS #1 v1.5 signature, see if it is an RSASSA-PSS one
+			pssVerifier, errPSS := signature.LoadRSAPSSVerifier(rsaKey, hash, nil)
+			if errPSS != nil {
+				return errPSS
+			}
+			err = pssVerifier.VerifySignature(bytes.NewReader(sign.Signature), bytes.NewReader(payload))
+		}
+		if err != nil {
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-- 
2.43.0


From 3d50a4f58929bf55243fc68dbf5697833fdbdb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 25/32] fix: do not overflow the largest possible download
 limit

---
 metadata/fetcher/fetcher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/fetcher/fetcher.go b/metadata/fetcher/fetcher.go
index 635aa6c..15a2812 100644
--- a/metadata/fetcher/fetcher.go
+++ b/metadata/fetcher/fetcher.go
@@ -14,6 +14,7 @@ package fetcher
 import (
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"strconv"
 	"time"
@@ -69,7 +70,11 @@ func (d *DefaultFetcher) DownloadFile(urlPath string, maxLength int64, timeout t
 	// the reported size is inaccurate, or size is -1 which indicates an
 	// unknown length. We read maxLength + 1 in order to check if the read data
 	// surpased our set limit.
-	data, err := io.ReadAll(io.LimitReader(res.Body, maxLength+1))
+	limit := maxLength
+	if limit < math.MaxInt64 {
+		limit++
+	}
+	data, err := io.ReadAll(io.LimitReader(res.Body, limit))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 459afea63bb6b005dcde7b00f740c3b613c2d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 26/32] fix: adding a key to metadata without a key store no
 longer crashes

---
 metadata/metadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index b3c4d71..c87f2bb 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -679,6 +679,9 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
 	}
 	// update Keys
+	if signed.Keys == nil {
+		signed.Keys = map[string]*Key{}
+	}
 	signed.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
 }
@@ -724,6 +727,9 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	if signed.Delegations == nil {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
+	if signed.Delegations.Keys == nil {
+		signed.Delegations.Keys = map[string]*Key{}
+	}
 	// standard delegated roles
 	if signed.Delegations.Roles != nil {
 		// loop through all delegated roles
-- 
2.43.0


From 3fc1c1fe60ef950ef591f69fd04b78aef67f9d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 27/32] fix: refuse adding a key for a role of delegations that
 have no roles

---
 metadata/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c87f2bb..36d5c43 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -758,7 +758,8 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 			return nil
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
-
+	} else {
+		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
 	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
-- 
2.43.0


From f100a1dbf63b1ce7ae65f91d14211f509669c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 28/32] fix: read the cached metadata of roles named . or ..
 from the file it was stored in

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 864d814..c3390da 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -392,7 +392,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
+	data, err := readFile(filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName))))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From 595a5a8df34441096a36a7d35656113d3d0d5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 29/32] fix: decode hexadecimal values written with JSON
 escapes

---
 metadata/marshal.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 8f1931a..78550fb 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -564,11 +564,18 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 }
 
 func (b *HexBytes) UnmarshalJSON(data []byte) error {
-	if len(data) < 2 || len(data)%2 != 0 || data[0] != '"' || data[len(data)-1] != '"' {
+	if len(data) < 2 || data[0] != '"' || data[len(data)-1] != '"' {
 		return errors.New("tuf: invalid JSON hex bytes")
 	}
-	res := make([]byte, hex.DecodedLen(len(data)-2))
-	_, err := hex.Decode(res, data[1:len(data)-1])
+	// decode it as any JSON string, its characters may be escaped
+	var s string
+	if err := json.Unmarshal(data, &s); err != nil {
+		return err
+	}
+	if len(s)%2 != 0 {
+		return errors.New("tuf: invalid JSON hex bytes")
+	}
+	res, err := hex.DecodeString(s)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b6d4810617b28418e665021ac429a24ef1fe119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 30/32] fix: refuse ed25519 public keys of the wrong length
 when converting them to keys

---
 metadata/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index 0d1c849..0469786 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -105,6 +105,9 @@ func KeyFromPublicKey(k crypto.PublicKey) (*Key, error) {
 		}
 		key.Value.PublicKey = string(pemKey)
 	case ed25519.PublicKey:
+		if len(k) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key")
+		}
 		key.Type = KeyTypeEd25519
 		key.Scheme = KeySchemeEd25519
 		key.Value.PublicKey = hex.EncodeToString(k)
-- 
2.43.0


From a55d9ba54ee64b8711688f29207850ec6ecd9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 31/32] fix: a refused key addition leaves metadata without a
 key store unchanged

---
 metadata/metadata.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 36d5c43..35debc9 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -727,9 +727,6 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	if signed.Delegations == nil {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
-	if signed.Delegations.Keys == nil {
-		signed.Delegations.Keys = map[string]*Key{}
-	}
 	// standard delegated roles
 	if signed.Delegations.Roles != nil {
 		// loop through all delegated roles
@@ -741,7 +738,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 				// add key if keyID is not already part of keyIDs for that role
 				if !slices.Contains(d.KeyIDs, key.ID()) {
 					signed.Delegations.Roles[i].KeyIDs = append(signed.Delegations.Roles[i].KeyIDs, key.ID())
-					signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+					signed.Delegations.storeKey(key) // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 					return nil
 				}
 				log.Info("Delegated role already has keyID", "role", role, "ID", key.ID())
@@ -754,17 +751,25 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		// add key if keyID is not already part of keyIDs for the SuccinctRoles role
 		if !slices.Contains(signed.Delegations.SuccinctRoles.KeyIDs, key.ID()) {
 			signed.Delegations.SuccinctRoles.KeyIDs = append(signed.Delegations.SuccinctRoles.KeyIDs, key.ID())
-			signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+			signed.Delegations.storeKey(key) // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 			return nil
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
 	} else {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
-	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+	signed.Delegations.storeKey(key) // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
 }
 
+// storeKey saves key in the delegations key store
+func (d *Delegations) storeKey(key *Key) {
+	if d.Keys == nil {
+		d.Keys = map[string]*Key{}
+	}
+	d.Keys[key.ID()] = key
+}
+
 // RevokeKey revokes key from delegated role "role" and updates the delegations key store
 // keyID: Identifier of the key to be removed for “role“.
 // role: Name of the role, for which a signing key is removed.
-- 
2.43.0


From cd7637b2ac88978d26b8cca70317c9b59dcdea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:00 +0000
Subject: [PATCH 32/32] fix: do not overflow the bound of root rotations

With MaxRootRotations near the largest int64, which is the natural way to
ask for no bound, the sum of the next root version and the bound overflowed
and no root was ever downloaded.
---
 metadata/updater/updater.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index c3390da..0a65902 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -455,10 +455,9 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 func (update *Updater) loadRoot() error {
 	// calculate boundaries
 	lowerBound := update.trusted.Root.Signed.Version + 1
-	upperBound := lowerBound + update.cfg.MaxRootRotations
 
 	// loop until we find the latest available version of root (download -> verify -> load -> persist)
-	for nextVersion := lowerBound; nextVersion < upperBound; nextVersion++ {
+	for nextVersion := lowerBound; nextVersion-lowerBound < update.cfg.MaxRootRotations; nextVersion++ {
 		data, err := update.downloadMetadata(metadata.ROOT, update.cfg.RootMaxLength, strconv.FormatInt(nextVersion, 10))
 		if err != nil {
 			// downloading the root metadata failed for some reason
-- 
2.43.0

