From dc78c0ffd1d1911e4c4b975e7f2862b724e1feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 01/29] fix: store uploads in a temporary file and move them
 into place when complete

Uploads wrote straight into the object or part file, so that a reader could
see a mixture of versions and a failed upload or a crash destroyed the
previous version. Directories left over from deleted keys no longer block
an upload.
---
 src/storages/fs.rs | 143 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 136 insertions(+), 7 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..7c18f5b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3StorageError, S3StorageResult};
+use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -26,8 +26,10 @@ use crate::utils::{crypto, time, Apply};
 use std::collections::{HashMap, VecDeque};
 use std::convert::TryInto;
 use std::env;
+use std::fs;
 use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
+use std::sync::{Mutex, MutexGuard, PoisonError};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
@@ -44,6 +46,22 @@ use async_fs::File;
 pub struct FileSystem {
     /// root path
     root: PathBuf,
+    /// serializes the (short, synchronous) steps which change what is visible to readers
+    commit_lock: Mutex<()>,
+}
+
+/// A file under construction, removed on drop unless it has been moved to its final place
+#[derive(Debug)]
+struct TempFile {
+    /// path of the file
+    path: PathBuf,
+}
+
+impl Drop for TempFile {
+    fn drop(&mut self) {
+        // the file does not exist any more if it has been moved
+        let _ = fs::remove_file(&self.path);
+    }
 }
 
 impl FileSystem {
@@ -52,7 +70,70 @@ impl FileSystem {
     /// Returns an `Err` if current working directory is invalid or `root` doesn't exist
     pub fn new(root: impl AsRef<Path>) -> io::Result<Self> {
         let root = env::current_dir()?.join(root).canonicalize()?;
-        Ok(Self { root })
+        Ok(Self {
+            root,
+            commit_lock: Mutex::new(()),
+        })
+    }
+
+    /// lock the visible state
+    fn lock(&self) -> MutexGuard<'_, ()> {
+        self.commit_lock
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner)
+    }
+
+    /// create a temporary file, on the same file system as the objects
+    fn create_temp_file(&self) -> io::Result<(TempFile, File)> {
+        let temp = TempFile {
+            path: self.root.join(format!(".tmp-{}", Uuid::new_v4())),
+        };
+        let file = fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp.path)?;
+        Ok((temp, file.into()))
+    }
+
+    /// ensure that a bucket exists
+    fn check_bucket(&self, bucket: &str) -> S3Result<()> {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        if trace_try!(is_dir(&path)) {
+            return Ok(());
+        }
+        Err(code_error!(
+            NoSuchBucket,
+            "The specified bucket does not exist."
+        ))
+    }
+
+    /// move a complete file to the place of an object
+    ///
+    /// The caller holds the lock.
+    fn commit_object(
+        &self,
+        _guard: &MutexGuard<'_, ()>,
+        temp: &TempFile,
+        bucket: &str,
+        key: &str,
+    ) -> S3Result<()> {
+        self.check_bucket(bucket)?;
+        let object_path = trace_try!(self.get_object_path(bucket, key));
+
+        if let Some(dir_path) = object_path.parent() {
+            if let Err(err) = fs::create_dir_all(dir_path) {
+                return Err(match err.kind() {
+                    io::ErrorKind::AlreadyExists | io::ErrorKind::NotADirectory => key_conflict(),
+                    _ => internal_error!(err),
+                });
+            }
+        }
+        if trace_try!(is_dir(&object_path)) && !trace_try!(prune_empty_dirs(&object_path)) {
+            return Err(key_conflict());
+        }
+
+        trace_try!(fs::rename(&temp.path, &object_path));
+        Ok(())
     }
 
     /// resolve object path under the virtual root
@@ -175,6 +256,50 @@ where
     Ok(nwrite)
 }
 
+/// does the path name an existing directory
+fn is_dir(path: &Path) -> io::Result<bool> {
+    match fs::metadata(path) {
+        Ok(m) => Ok(m.is_dir()),
+        Err(e) if is_absent(&e) => Ok(false),
+        Err(e) => Err(e),
+    }
+}
+
+/// does the error mean that there is no file of that name
+fn is_absent(e: &io::Error) -> bool {
+    matches!(
+        e.kind(),
+        io::ErrorKind::NotFound | io::ErrorKind::NotADirectory | io::ErrorKind::InvalidFilename
+    )
+}
+
+/// remove a directory which contains nothing but directories
+///
+/// returns `false` and removes nothing if there is any file in it
+fn prune_empty_dirs(path: &Path) -> io::Result<bool> {
+    let mut dirs = vec![path.to_owned()];
+    let mut next: usize = 0;
+    while let Some(dir) = dirs.get(next).cloned() {
+        for entry in fs::read_dir(&dir)? {
+            let entry = entry?;
+            if !entry.file_type()?.is_dir() {
+                return Ok(false);
+            }
+            dirs.push(entry.path());
+        }
+        next = next.wrapping_add(1);
+    }
+    for dir in dirs.iter().rev() {
+        fs::remove_dir(dir)?;
+    }
+    Ok(true)
+}
+
+/// the key of an object is a directory of another object, or the other way around
+fn key_conflict() -> crate::errors::S3Error {
+    invalid_request!("The key conflicts with the key of an existing object.")
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -675,15 +800,13 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
+        self.check_bucket(&bucket)?;
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
+        let (temp, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -698,6 +821,9 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
+        drop(writer);
+        self.commit_object(&self.lock(), &temp, &bucket, &key)?;
+
         if let Some(ref metadata) = metadata {
             trace_try!(self.save_metadata(&bucket, &key, metadata).await);
         }
@@ -749,7 +875,7 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
+        let (temp, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -764,6 +890,9 @@ impl S3Storage for FileSystem {
             "UploadPart: write file",
         );
 
+        drop(writer);
+        trace_try!(fs::rename(&temp.path, &file_path));
+
         let e_tag = format!("\"{}\"", md5_sum);
 
         let output = UploadPartOutput {
-- 
2.43.0


From 7aeec717c5044fe9c80e9efd1592f315eef58bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 02/29] fix: publish content and user metadata of an object
 together, and read them together

---
 src/storages/fs.rs | 282 +++++++++++++++++++++++++++++++++------------
 1 file changed, 206 insertions(+), 76 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 7c18f5b..1defd3d 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -30,12 +30,14 @@ use std::fs;
 use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
 use std::sync::{Mutex, MutexGuard, PoisonError};
+use std::time::{Duration, SystemTime};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
 use md5::{Digest, Md5};
 use path_absolutize::Absolutize;
+use serde::{Deserialize, Serialize};
 use tracing::{debug, error};
 use uuid::Uuid;
 
@@ -57,6 +59,24 @@ struct TempFile {
     path: PathBuf,
 }
 
+/// The metadata file of an object
+///
+/// The object file says which entry is valid: replacing it replaces content and metadata at once.
+#[derive(Debug, Serialize, Deserialize)]
+struct MetadataFile {
+    /// the version which is being stored, the current version
+    versions: Vec<MetadataVersion>,
+}
+
+/// The metadata of one version of an object
+#[derive(Debug, Serialize, Deserialize)]
+struct MetadataVersion {
+    /// version tag of the content
+    tag: String,
+    /// user metadata
+    metadata: HashMap<String, String>,
+}
+
 impl Drop for TempFile {
     fn drop(&mut self) {
         // the file does not exist any more if it has been moved
@@ -83,11 +103,16 @@ impl FileSystem {
             .unwrap_or_else(PoisonError::into_inner)
     }
 
-    /// create a temporary file, on the same file system as the objects
-    fn create_temp_file(&self) -> io::Result<(TempFile, File)> {
-        let temp = TempFile {
+    /// name a temporary file, on the same file system as the objects
+    fn temp_file(&self) -> TempFile {
+        TempFile {
             path: self.root.join(format!(".tmp-{}", Uuid::new_v4())),
-        };
+        }
+    }
+
+    /// create a temporary file
+    fn create_temp_file(&self) -> io::Result<(TempFile, File)> {
+        let temp = self.temp_file();
         let file = fs::OpenOptions::new()
             .write(true)
             .create_new(true)
@@ -116,6 +141,7 @@ impl FileSystem {
         temp: &TempFile,
         bucket: &str,
         key: &str,
+        metadata: Option<&HashMap<String, String>>,
     ) -> S3Result<()> {
         self.check_bucket(bucket)?;
         let object_path = trace_try!(self.get_object_path(bucket, key));
@@ -132,7 +158,48 @@ impl FileSystem {
             return Err(key_conflict());
         }
 
+        let old_tag = match fs::metadata(&object_path) {
+            Ok(m) => Some(trace_try!(version_tag(&m))),
+            Err(e) if is_absent(&e) => None,
+            Err(e) => return Err(internal_error!(e)),
+        };
+        let mut temp_metadata = trace_try!(fs::metadata(&temp.path));
+        if old_tag == Some(trace_try!(version_tag(&temp_metadata))) {
+            // the clock did not advance since the previous version was stored
+            let time = trace_try!(temp_metadata.modified()) + Duration::from_secs(1);
+            let file = trace_try!(fs::OpenOptions::new().write(true).open(&temp.path));
+            trace_try!(file.set_modified(time));
+            temp_metadata = trace_try!(file.metadata());
+        }
+
+        let new_version = match metadata.filter(|m| !m.is_empty()) {
+            None => None,
+            Some(m) => Some(MetadataVersion {
+                tag: trace_try!(version_tag(&temp_metadata)),
+                metadata: m.clone(),
+            }),
+        };
+        let old_version = match old_tag {
+            None => None,
+            Some(tag) => trace_try!(self.load_metadata(bucket, key, &tag))
+                .map(|metadata| MetadataVersion { tag, metadata }),
+        };
+        let has_metadata = new_version.is_some();
+        let versions: Vec<_> = new_version.into_iter().chain(old_version).collect();
+        if versions.is_empty() {
+            trace_try!(self.remove_metadata(bucket, key));
+        } else {
+            trace_try!(self.save_metadata(bucket, key, &MetadataFile { versions }));
+        }
+
         trace_try!(fs::rename(&temp.path, &object_path));
+
+        if !has_metadata {
+            if let Err(err) = self.remove_metadata(bucket, key) {
+                // the tag of the entry is that of the previous version
+                debug!(%err, "remove stale metadata");
+            }
+        }
         Ok(())
     }
 
@@ -168,40 +235,86 @@ impl FileSystem {
         Ok(ans)
     }
 
-    /// load metadata from fs
-    async fn load_metadata(
+    /// load the metadata which was stored with a version of an object
+    ///
+    /// The caller holds the lock.
+    fn load_metadata(
         &self,
         bucket: &str,
         key: &str,
+        tag: &str,
     ) -> io::Result<Option<HashMap<String, String>>> {
         let path = self.get_metadata_path(bucket, key)?;
-        if path.exists() {
-            let content = async_fs::read(&path).await?;
-            let map = serde_json::from_slice(&content)
-                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-            Ok(Some(map))
-        } else {
-            Ok(None)
+        let content = match fs::read(&path) {
+            Ok(content) => content,
+            Err(e) if is_absent(&e) => return Ok(None),
+            Err(e) => return Err(e),
+        };
+        if let Ok(file) = serde_json::from_slice::<MetadataFile>(&content) {
+            let mut versions = file.versions.into_iter();
+            return Ok(versions.find(|v| v.tag == tag).map(|v| v.metadata));
         }
+        // earlier releases stored only the metadata
+        let map = serde_json::from_slice(&content)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+        Ok(Some(map))
     }
 
     /// save metadata
-    async fn save_metadata(
-        &self,
-        bucket: &str,
-        key: &str,
-        metadata: &HashMap<String, String>,
-    ) -> io::Result<()> {
+    ///
+    /// The caller holds the lock.
+    fn save_metadata(&self, bucket: &str, key: &str, metadata: &MetadataFile) -> io::Result<()> {
         let path = self.get_metadata_path(bucket, key)?;
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        async_fs::write(&path, &content).await
+        let temp = self.temp_file();
+        fs::write(&temp.path, &content)?;
+        fs::rename(&temp.path, &path)
+    }
+
+    /// remove metadata
+    ///
+    /// The caller holds the lock.
+    fn remove_metadata(&self, bucket: &str, key: &str) -> io::Result<()> {
+        let path = self.get_metadata_path(bucket, key)?;
+        remove_file_if_present(&path)
+    }
+
+    /// open the current version of an object
+    #[allow(clippy::type_complexity)]
+    fn open_object(
+        &self,
+        bucket: &str,
+        key: &str,
+    ) -> S3Result<(File, fs::Metadata, Option<HashMap<String, String>>)> {
+        let object_path = trace_try!(self.get_object_path(bucket, key));
+
+        let _guard = self.lock();
+        let file = match fs::File::open(&object_path) {
+            Ok(file) => file,
+            Err(e) if is_absent(&e) => {
+                error!(error = %e, "open object");
+                return Err(code_error!(
+                    NoSuchKey,
+                    "The specified key does not exist."
+                ));
+            }
+            Err(e) => return Err(internal_error!(e)),
+        };
+        let file_metadata = trace_try!(file.metadata());
+        if file_metadata.is_dir() {
+            return Err(code_error!(
+                NoSuchKey,
+                "The specified key does not exist."
+            ));
+        }
+        let tag = trace_try!(version_tag(&file_metadata));
+        let metadata = trace_try!(self.load_metadata(bucket, key, &tag));
+        Ok((file.into(), file_metadata, metadata))
     }
 
     /// get md5 sum
-    async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
-        let object_path = self.get_object_path(bucket, key)?;
-        let mut file = File::open(&object_path).await?;
+    async fn get_md5_sum(&self, file: &mut File) -> io::Result<String> {
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -273,6 +386,23 @@ fn is_absent(e: &io::Error) -> bool {
     )
 }
 
+/// remove a file which may not exist
+fn remove_file_if_present(path: &Path) -> io::Result<()> {
+    match fs::remove_file(path) {
+        Err(e) if !is_absent(&e) => Err(e),
+        Ok(()) | Err(_) => Ok(()),
+    }
+}
+
+/// distinguishes the versions of the content of an object
+fn version_tag(metadata: &fs::Metadata) -> io::Result<String> {
+    let time = metadata
+        .modified()?
+        .duration_since(SystemTime::UNIX_EPOCH)
+        .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+    Ok(format!("{}-{}", time.as_nanos(), metadata.len()))
+}
+
 /// remove a directory which contains nothing but directories
 ///
 /// returns `false` and removes nothing if there is any file in it
@@ -344,27 +474,37 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
-        let src_path = trace_try!(self.get_object_path(bucket, key));
+        self.check_bucket(&input.bucket)?;
         let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
-        let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
+        let (src_file, file_metadata, src_metadata) = self.open_object(bucket, key)?;
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        let mut md5_hash = Md5::new();
+        let stream = BytesStream::new(src_file, 65536, None)
+            .inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
+
+        let (temp, file) = trace_try!(self.create_temp_file());
+        let mut writer = BufWriter::new(file);
+        let _ = trace_try!(copy_bytes(stream, &mut writer).await);
+        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
-            from = %src_path.display(),
+            from_bucket = %bucket,
+            from_key = %key,
             to = %dst_path.display(),
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
-        }
-
-        let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
+        drop(writer);
+        let dst_metadata = src_metadata.as_ref();
+        self.commit_object(
+            &self.lock(),
+            &temp,
+            &input.bucket,
+            &input.key,
+            dst_metadata,
+        )?;
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -401,7 +541,9 @@ impl S3Storage for FileSystem {
                 trace_try!(async_fs::remove_dir(&path).await);
             }
         } else {
-            trace_try!(async_fs::remove_file(path).await);
+            let _guard = self.lock();
+            trace_try!(fs::remove_file(path));
+            trace_try!(self.remove_metadata(&input.bucket, &input.key));
         }
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
@@ -422,7 +564,11 @@ impl S3Storage for FileSystem {
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
+            {
+                let _guard = self.lock();
+                trace_try!(fs::remove_file(path));
+                trace_try!(self.remove_metadata(&input.bucket, &key));
+            }
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -459,25 +605,23 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
-
         let parse_range = |s: &str| {
             Range::from_header_str(s).map_err(|err| invalid_request!("Invalid header: range", err))
         };
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
-        let mut file = match File::open(&object_path).await {
-            Ok(file) => file,
-            Err(e) => {
-                error!(error = %e, "GetObject: open file");
-                let err = code_error!(NoSuchKey, "The specified key does not exist.");
-                return Err(err.into());
-            }
-        };
+        let (mut file, file_metadata, object_metadata) =
+            self.open_object(&input.bucket, &input.key)?;
 
-        let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
+        let (md5_sum, duration) = {
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
+            let md5_sum = trace_try!(ret);
+            (md5_sum, duration)
+        };
+        let _ = trace_try!(file.seek(SeekFrom::Start(0)).await);
+
         let content_length = {
             let file_len = file_metadata.len();
             let content_len = match range {
@@ -519,18 +663,9 @@ impl S3Storage for FileSystem {
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
-
-        let (md5_sum, duration) = {
-            let (ret, duration) =
-                time::count_duration(self.get_md5_sum(&input.bucket, &input.key)).await;
-            let md5_sum = trace_try!(ret);
-            (md5_sum, duration)
-        };
-
         debug!(
             sum = ?md5_sum,
-            path = %object_path.display(),
+            key = %input.key,
             size = ?content_length,
             ?duration,
             "GetObject: calculate md5 sum",
@@ -568,19 +703,10 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
-
-        if !path.exists() {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
-
-        let file_metadata = trace_try!(async_fs::metadata(path).await);
+        let (_, file_metadata, object_metadata) = self.open_object(&input.bucket, &input.key)?;
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
         let size = file_metadata.len();
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
-
         let output: HeadObjectOutput = HeadObjectOutput {
             content_length: Some(trace_try!(size.try_into())),
             content_type: Some(mime::APPLICATION_OCTET_STREAM.as_ref().to_owned()), // TODO: handle content type
@@ -822,11 +948,7 @@ impl S3Storage for FileSystem {
         );
 
         drop(writer);
-        self.commit_object(&self.lock(), &temp, &bucket, &key)?;
-
-        if let Some(ref metadata) = metadata {
-            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
-        }
+        self.commit_object(&self.lock(), &temp, &bucket, &key, metadata.as_ref())?;
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
@@ -924,8 +1046,9 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-        let file = trace_try!(File::create(&object_path).await);
+        let (temp, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
+        let mut part_paths = Vec::new();
 
         let mut cnt: i64 = 0;
         for part in multipart_upload.parts.into_iter().flatten() {
@@ -954,18 +1077,25 @@ impl S3Storage for FileSystem {
                 ?duration,
                 "CompleteMultipartUpload: write file",
             );
-            trace_try!(async_fs::remove_file(&part_path).await);
+            part_paths.push(part_path.into_owned());
         }
+        trace_try!(writer.flush().await);
         drop(writer);
 
-        let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
+        let file_size = trace_try!(async_fs::metadata(&temp.path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&bucket, &key)).await;
+            let mut file = trace_try!(File::open(&temp.path).await);
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
 
+        self.commit_object(&self.lock(), &temp, &bucket, &key, None)?;
+        for part_path in part_paths {
+            trace_try!(fs::remove_file(&part_path));
+        }
+
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
-- 
2.43.0


From 7767cbbf803c0c76a6d41e8e284a3b7126400380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 03/29] fix: refuse keys which have no path of their own
 instead of aliasing another object

---
 src/storages/fs.rs | 73 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1defd3d..b1ce76f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -144,15 +144,10 @@ impl FileSystem {
         metadata: Option<&HashMap<String, String>>,
     ) -> S3Result<()> {
         self.check_bucket(bucket)?;
-        let object_path = trace_try!(self.get_object_path(bucket, key));
+        let object_path = self.get_object_path(bucket, key)?;
 
         if let Some(dir_path) = object_path.parent() {
-            if let Err(err) = fs::create_dir_all(dir_path) {
-                return Err(match err.kind() {
-                    io::ErrorKind::AlreadyExists | io::ErrorKind::NotADirectory => key_conflict(),
-                    _ => internal_error!(err),
-                });
-            }
+            create_dirs(dir_path)?;
         }
         if trace_try!(is_dir(&object_path)) && !trace_try!(prune_empty_dirs(&object_path)) {
             return Err(key_conflict());
@@ -204,16 +199,28 @@ impl FileSystem {
     }
 
     /// resolve object path under the virtual root
-    fn get_object_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
+    ///
+    /// Every key is mapped to a path of its own, a key for which there is none is refused.
+    fn get_object_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        for segment in key.split('/') {
+            if matches!(segment, "" | "." | "..") || segment.contains('\0') {
+                return Err(invalid_request!("The key is not supported."));
+            }
+            if segment.len() > 255 {
+                return Err(code_error!(KeyTooLongError, "Your key is too long."));
+            }
+        }
         let dir = Path::new(&bucket);
         let file_path = Path::new(&key);
-        let ans = dir
-            .join(&file_path)
-            .absolutize_virtually(&self.root)?
-            .into();
+        let ans = trace_try!(dir.join(&file_path).absolutize_virtually(&self.root)).into();
         Ok(ans)
     }
 
+    /// resolve the path of a directory object, whose key ends with a slash
+    fn get_dir_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        self.get_object_path(bucket, key.strip_suffix('/').unwrap_or(key))
+    }
+
     /// resolve bucket path under the virtual root
     fn get_bucket_path(&self, bucket: &str) -> io::Result<PathBuf> {
         let dir = Path::new(&bucket);
@@ -225,11 +232,19 @@ impl FileSystem {
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
 
-        let file_path_str = format!(
+        let mut file_path_str = format!(
             ".bucket-{}.object-{}.metadata.json",
             encode(bucket),
             encode(key),
         );
+        if file_path_str.len() > 255 {
+            // too long for a file name
+            file_path_str = format!(
+                ".bucket-{}.object-sha256.{}.metadata.json",
+                encode(bucket),
+                crypto::hex_sha256(key.as_bytes()),
+            );
+        }
         let file_path = Path::new(&file_path_str);
         let ans = file_path.absolutize_virtually(&self.root)?.into();
         Ok(ans)
@@ -287,7 +302,13 @@ impl FileSystem {
         bucket: &str,
         key: &str,
     ) -> S3Result<(File, fs::Metadata, Option<HashMap<String, String>>)> {
-        let object_path = trace_try!(self.get_object_path(bucket, key));
+        if key.ends_with('/') {
+            return Err(code_error!(
+                NoSuchKey,
+                "The specified key does not exist."
+            ));
+        }
+        let object_path = self.get_object_path(bucket, key)?;
 
         let _guard = self.lock();
         let file = match fs::File::open(&object_path) {
@@ -425,6 +446,14 @@ fn prune_empty_dirs(path: &Path) -> io::Result<bool> {
     Ok(true)
 }
 
+/// create the directories of an object
+fn create_dirs(path: &Path) -> S3Result<()> {
+    fs::create_dir_all(path).map_err(|err| match err.kind() {
+        io::ErrorKind::AlreadyExists | io::ErrorKind::NotADirectory => key_conflict(),
+        _ => internal_error!(err),
+    })
+}
+
 /// the key of an object is a directory of another object, or the other way around
 fn key_conflict() -> crate::errors::S3Error {
     invalid_request!("The key conflicts with the key of an existing object.")
@@ -475,7 +504,7 @@ impl S3Storage for FileSystem {
         };
 
         self.check_bucket(&input.bucket)?;
-        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let (src_file, file_metadata, src_metadata) = self.open_object(bucket, key)?;
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
@@ -533,7 +562,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
             let is_empty = dir.next().await.is_none();
@@ -556,7 +585,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
-            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
+            let path = self.get_object_path(&input.bucket, &object.key)?;
             if path.exists() {
                 objects.push((path, object.key));
             }
@@ -914,8 +943,10 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
-                let object_path = trace_try!(self.get_object_path(&bucket, &key));
-                trace_try!(async_fs::create_dir_all(&object_path).await);
+                let object_path = self.get_dir_path(&bucket, &key)?;
+                let _guard = self.lock();
+                self.check_bucket(&bucket)?;
+                create_dirs(&object_path)?;
                 let output = PutObjectOutput::default();
                 return Ok(output);
             }
@@ -927,7 +958,7 @@ impl S3Storage for FileSystem {
         }
 
         self.check_bucket(&bucket)?;
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -1045,7 +1076,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         let (temp, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
         let mut part_paths = Vec::new();
-- 
2.43.0


From 1d013936305ffbef2b182cff1d20f4a852c70bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 04/29] fix: answer satisfiable ranges with 206 and exactly the
 selected bytes

---
 src/ops/get_object.rs |  5 ++++-
 src/storages/fs.rs    | 21 ++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 88d347f..e040a3f 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -18,7 +18,7 @@ use crate::headers::{
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{time, ResponseExt};
-use crate::{async_trait, Body, Method, Response};
+use crate::{async_trait, Body, Method, Response, StatusCode};
 
 /// `GetObject` handler
 pub struct Handler;
@@ -104,6 +104,9 @@ impl S3Output for GetObjectOutput {
             res.set_optional_header(CONTENT_DISPOSITION, self.content_disposition)?;
             res.set_optional_header(CONTENT_ENCODING, self.content_encoding)?;
             res.set_optional_header(CONTENT_LANGUAGE, self.content_language)?;
+            if self.content_range.is_some() {
+                *res.status_mut() = StatusCode::PARTIAL_CONTENT;
+            }
             res.set_optional_header(CONTENT_RANGE, self.content_range)?;
             res.set_optional_header(CONTENT_TYPE, self.content_type)?;
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index b1ce76f..de7b8bc 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -651,8 +651,9 @@ impl S3Storage for FileSystem {
         };
         let _ = trace_try!(file.seek(SeekFrom::Start(0)).await);
 
+        let file_len = file_metadata.len();
+        let mut content_range = None;
         let content_length = {
-            let file_len = file_metadata.len();
             let content_len = match range {
                 None => file_len,
                 Some(Range::Normal { first, last }) => {
@@ -667,13 +668,18 @@ impl S3Storage for FileSystem {
                     //      len = last + 1 - first
                     // or   len = file_len - first
 
-                    last.and_then(|x| x.checked_add(1))
-                        .unwrap_or(file_len)
-                        .wrapping_sub(first)
+                    let len = last
+                        .and_then(|x| x.checked_add(1))
+                        .map_or(file_len, |x| x.min(file_len))
+                        .wrapping_sub(first);
+                    content_range = Some((first, len));
+                    len
                 }
                 Some(Range::Suffix { last }) => {
+                    // a suffix which is longer than the object selects all of it
+                    let last = last.min(file_len);
                     let offset = Some(last)
-                        .filter(|&x| x <= file_len)
+                        .filter(|&x| x > 0)
                         .and_then(|x| i64::try_from(x).ok())
                         .and_then(i64::checked_neg);
 
@@ -684,6 +690,7 @@ impl S3Storage for FileSystem {
                             code_error!(InvalidRange, "The requested range cannot be satisfied.");
                         return Err(err.into());
                     }
+                    content_range = Some((file_len.wrapping_sub(last), last));
                     last
                 }
             };
@@ -703,6 +710,10 @@ impl S3Storage for FileSystem {
         let output: GetObjectOutput = GetObjectOutput {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
+            content_range: content_range.map(|(first, len)| {
+                let last = first.wrapping_add(len).wrapping_sub(1);
+                format!("bytes {}-{}/{}", first, last, file_len)
+            }),
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 3e749346b6ca5da9a22380fae1f395e59dc6de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 05/29] fix: deletions report every key truthfully, absent keys
 and missing buckets included

---
 src/dto.rs         |   2 +-
 src/errors.rs      |  12 ++++++
 src/storages/fs.rs | 104 +++++++++++++++++++++++----------------------
 3 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/src/dto.rs b/src/dto.rs
index 68153ff..cec0b43 100644
--- a/src/dto.rs
+++ b/src/dto.rs
@@ -14,7 +14,7 @@ pub use rusoto_s3::{
     HeadObjectOutput, HeadObjectRequest, ListBucketsError, ListBucketsOutput, ListObjectsError,
     ListObjectsOutput, ListObjectsRequest, ListObjectsV2Error, ListObjectsV2Output,
     ListObjectsV2Request, Object, ObjectIdentifier, Owner, PutObjectError, PutObjectOutput,
-    PutObjectRequest, UploadPartError, UploadPartOutput, UploadPartRequest,
+    PutObjectRequest, S3Error as DeleteError, UploadPartError, UploadPartOutput, UploadPartRequest,
 };
 
 /// `DeleteBucketOutput`
diff --git a/src/errors.rs b/src/errors.rs
index fbf9e47..d177cb5 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -96,6 +96,18 @@ impl S3Error {
         .apply(|e| S3ErrorBuilder(Box::new(e)))
     }
 
+    /// get error code
+    #[must_use]
+    pub const fn code(&self) -> S3ErrorCode {
+        self.0.code
+    }
+
+    /// get error message
+    #[must_use]
+    pub fn message(&self) -> Option<&str> {
+        self.0.message.as_deref()
+    }
+
     /// consume the error and return an xml response
     pub(crate) fn into_xml_response(self) -> XmlErrorResponse {
         XmlErrorResponse {
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index de7b8bc..2c44862 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -7,15 +7,15 @@ use crate::dto::{
     CompleteMultipartUploadRequest, CopyObjectError, CopyObjectOutput, CopyObjectRequest,
     CopyObjectResult, CreateBucketError, CreateBucketOutput, CreateBucketRequest,
     CreateMultipartUploadError, CreateMultipartUploadOutput, CreateMultipartUploadRequest,
-    DeleteBucketError, DeleteBucketOutput, DeleteBucketRequest, DeleteObjectError,
+    DeleteBucketError, DeleteBucketOutput, DeleteBucketRequest, DeleteError, DeleteObjectError,
     DeleteObjectOutput, DeleteObjectRequest, DeleteObjectsError, DeleteObjectsOutput,
     DeleteObjectsRequest, DeletedObject, GetBucketLocationError, GetBucketLocationOutput,
     GetBucketLocationRequest, GetObjectError, GetObjectOutput, GetObjectRequest, HeadBucketError,
     HeadBucketOutput, HeadBucketRequest, HeadObjectError, HeadObjectOutput, HeadObjectRequest,
     ListBucketsError, ListBucketsOutput, ListBucketsRequest, ListObjectsError, ListObjectsOutput,
     ListObjectsRequest, ListObjectsV2Error, ListObjectsV2Output, ListObjectsV2Request, Object,
-    PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
-    UploadPartRequest,
+    ObjectIdentifier, PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError,
+    UploadPartOutput, UploadPartRequest,
 };
 use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
@@ -295,6 +295,27 @@ impl FileSystem {
         remove_file_if_present(&path)
     }
 
+    /// delete an object, which may not exist
+    fn delete_key(&self, _guard: &MutexGuard<'_, ()>, bucket: &str, key: &str) -> S3Result<()> {
+        self.check_bucket(bucket)?;
+        if key.ends_with('/') {
+            let path = self.get_dir_path(bucket, key)?;
+            return match fs::remove_dir(path) {
+                Err(e) if !is_absent(&e) && e.kind() != io::ErrorKind::DirectoryNotEmpty => {
+                    Err(internal_error!(e))
+                }
+                Ok(()) | Err(_) => Ok(()),
+            };
+        }
+        let path = self.get_object_path(bucket, key)?;
+        if trace_try!(is_dir(&path)) {
+            return Ok(());
+        }
+        trace_try!(remove_file_if_present(&path));
+        trace_try!(self.remove_metadata(bucket, key));
+        Ok(())
+    }
+
     /// open the current version of an object
     #[allow(clippy::type_complexity)]
     fn open_object(
@@ -303,10 +324,7 @@ impl FileSystem {
         key: &str,
     ) -> S3Result<(File, fs::Metadata, Option<HashMap<String, String>>)> {
         if key.ends_with('/') {
-            return Err(code_error!(
-                NoSuchKey,
-                "The specified key does not exist."
-            ));
+            return Err(code_error!(NoSuchKey, "The specified key does not exist."));
         }
         let object_path = self.get_object_path(bucket, key)?;
 
@@ -315,19 +333,13 @@ impl FileSystem {
             Ok(file) => file,
             Err(e) if is_absent(&e) => {
                 error!(error = %e, "open object");
-                return Err(code_error!(
-                    NoSuchKey,
-                    "The specified key does not exist."
-                ));
+                return Err(code_error!(NoSuchKey, "The specified key does not exist."));
             }
             Err(e) => return Err(internal_error!(e)),
         };
         let file_metadata = trace_try!(file.metadata());
         if file_metadata.is_dir() {
-            return Err(code_error!(
-                NoSuchKey,
-                "The specified key does not exist."
-            ));
+            return Err(code_error!(NoSuchKey, "The specified key does not exist."));
         }
         let tag = trace_try!(version_tag(&file_metadata));
         let metadata = trace_try!(self.load_metadata(bucket, key, &tag));
@@ -527,13 +539,7 @@ impl S3Storage for FileSystem {
 
         drop(writer);
         let dst_metadata = src_metadata.as_ref();
-        self.commit_object(
-            &self.lock(),
-            &temp,
-            &input.bucket,
-            &input.key,
-            dst_metadata,
-        )?;
+        self.commit_object(&self.lock(), &temp, &input.bucket, &input.key, dst_metadata)?;
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -562,18 +568,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = self.get_object_path(&input.bucket, &input.key)?;
-        if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
-            }
-        } else {
-            let _guard = self.lock();
-            trace_try!(fs::remove_file(path));
-            trace_try!(self.remove_metadata(&input.bucket, &input.key));
-        }
+        self.delete_key(&self.lock(), &input.bucket, &input.key)?;
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -583,28 +578,37 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
-        let mut objects: Vec<(PathBuf, String)> = Vec::new();
-        for object in input.delete.objects {
-            let path = self.get_object_path(&input.bucket, &object.key)?;
-            if path.exists() {
-                objects.push((path, object.key));
-            }
-        }
+        let quiet = input.delete.quiet == Some(true);
+        self.check_bucket(&input.bucket)?;
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
-        for (path, key) in objects {
-            {
-                let _guard = self.lock();
-                trace_try!(fs::remove_file(path));
-                trace_try!(self.remove_metadata(&input.bucket, &key));
+        let mut errors: Vec<DeleteError> = Vec::new();
+        for ObjectIdentifier { key, version_id } in input.delete.objects {
+            let ret = if version_id.map_or(true, |v| v.is_empty() || v == "null") {
+                self.delete_key(&self.lock(), &input.bucket, &key)
+            } else {
+                Err(code_error!(
+                    NotImplemented,
+                    "Versioning is not supported yet."
+                ))
+            };
+            match ret {
+                Ok(()) if quiet => {}
+                Ok(()) => deleted.push(DeletedObject {
+                    key: Some(key),
+                    ..DeletedObject::default()
+                }),
+                Err(err) => errors.push(DeleteError {
+                    code: Some(err.code().as_static_str().to_owned()),
+                    key: Some(key),
+                    message: err.message().map(ToOwned::to_owned),
+                    version_id: None,
+                }),
             }
-            deleted.push(DeletedObject {
-                key: Some(key),
-                ..DeletedObject::default()
-            });
         }
         let output = DeleteObjectsOutput {
             deleted: Some(deleted),
+            errors: Some(errors),
             ..DeleteObjectsOutput::default()
         };
         Ok(output)
-- 
2.43.0


From 229baa144feb3e2cd32da9338dc0c4ae04ca1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 06/29] fix: enforce Content-MD5 and blame the client for a
 request body that breaks off

---
 src/storages/fs.rs | 63 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2c44862..6bcd38f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     ObjectIdentifier, PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError,
     UploadPartOutput, UploadPartRequest,
 };
-use crate::errors::{S3Result, S3StorageError, S3StorageResult};
+use crate::errors::{S3Error, S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -368,16 +368,16 @@ impl FileSystem {
 }
 
 /// copy bytes from a stream to a writer
-async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
+async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> S3Result<usize>
 where
-    S: Stream<Item = io::Result<Bytes>> + Send + Unpin,
+    S: Stream<Item = S3Result<Bytes>> + Send + Unpin,
     W: AsyncWrite + Send + Unpin,
 {
     let mut nwrite: usize = 0;
     while let Some(bytes) = stream.next().await {
         let bytes = bytes?;
 
-        let amt_u64 = futures::io::copy_buf(bytes.as_ref(), writer).await?;
+        let amt_u64 = trace_try!(futures::io::copy_buf(bytes.as_ref(), writer).await);
         let amt: usize = amt_u64.try_into().unwrap_or_else(|err| {
             panic!(
                 "number overflow: u64 to usize, n = {}, err = {}",
@@ -398,10 +398,34 @@ where
             .checked_add(amt)
             .unwrap_or_else(|| panic!("nwrite overflow: amt = {}, nwrite = {}", amt, nwrite));
     }
-    writer.flush().await?;
+    trace_try!(writer.flush().await);
     Ok(nwrite)
 }
 
+/// the request body ended early or is not what the client announced
+fn body_error(e: io::Error) -> S3Error {
+    code_error!(IncompleteBody, "The request body can not be read.", e)
+}
+
+/// check the digest which the client announced
+fn check_content_md5(content_md5: Option<&str>, md5_sum: &[u8]) -> S3Result<()> {
+    let content_md5 = match content_md5 {
+        None => return Ok(()),
+        Some(s) => s,
+    };
+    match base64_simd::STANDARD.decode_to_vec(content_md5) {
+        Ok(ref digest) if digest == md5_sum => Ok(()),
+        Ok(ref digest) if digest.len() == md5_sum.len() => Err(code_error!(
+            BadDigest,
+            "The Content-MD5 you specified did not match what we received."
+        )),
+        Ok(_) | Err(_) => Err(code_error!(
+            InvalidDigest,
+            "The Content-MD5 you specified is not valid."
+        )),
+    }
+}
+
 /// does the path name an existing directory
 fn is_dir(path: &Path) -> io::Result<bool> {
     match fs::metadata(path) {
@@ -467,7 +491,7 @@ fn create_dirs(path: &Path) -> S3Result<()> {
 }
 
 /// the key of an object is a directory of another object, or the other way around
-fn key_conflict() -> crate::errors::S3Error {
+fn key_conflict() -> S3Error {
     invalid_request!("The key conflicts with the key of an existing object.")
 }
 
@@ -523,11 +547,12 @@ impl S3Storage for FileSystem {
 
         let mut md5_hash = Md5::new();
         let stream = BytesStream::new(src_file, 65536, None)
-            .inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
+            .inspect_ok(|bytes| md5_hash.update(bytes.as_ref()))
+            .map_err(|e| internal_error!(e));
 
         let (temp, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
-        let _ = trace_try!(copy_bytes(stream, &mut writer).await);
+        let _ = copy_bytes(stream, &mut writer).await?;
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
@@ -949,6 +974,7 @@ impl S3Storage for FileSystem {
             key,
             metadata,
             content_length,
+            content_md5,
             ..
         } = input;
 
@@ -976,14 +1002,18 @@ impl S3Storage for FileSystem {
         let object_path = self.get_object_path(&bucket, &key)?;
 
         let mut md5_hash = Md5::new();
-        let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
+        let stream = body
+            .inspect_ok(|bytes| md5_hash.update(bytes.as_ref()))
+            .map_err(body_error);
 
         let (temp, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
-        let size = trace_try!(ret);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let size = ret?;
+        let md5_sum = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), &md5_sum)?;
+        let md5_sum = md5_sum.apply(crypto::to_hex_string);
 
         debug!(
             path = %object_path.display(),
@@ -1030,6 +1060,7 @@ impl S3Storage for FileSystem {
             body,
             upload_id,
             part_number,
+            content_md5,
             ..
         } = input;
 
@@ -1041,14 +1072,18 @@ impl S3Storage for FileSystem {
         let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
 
         let mut md5_hash = Md5::new();
-        let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
+        let stream = body
+            .inspect_ok(|bytes| md5_hash.update(bytes.as_ref()))
+            .map_err(body_error);
 
         let (temp, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
-        let size = trace_try!(ret);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let size = ret?;
+        let md5_sum = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), &md5_sum)?;
+        let md5_sum = md5_sum.apply(crypto::to_hex_string);
 
         debug!(
             path = %file_path.display(),
-- 
2.43.0


From 92e138d785d1eeb1bb5aa7fe3d32fa9db706f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 07/29] fix: create and delete buckets atomically, listings and
 bucket queries survive concurrent changes

---
 src/storages/fs.rs | 113 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 100 insertions(+), 13 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 6bcd38f..fafbe54 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -59,6 +59,13 @@ struct TempFile {
     path: PathBuf,
 }
 
+/// A directory which is being removed
+#[derive(Debug)]
+struct TempDir {
+    /// path of the directory
+    path: PathBuf,
+}
+
 /// The metadata file of an object
 ///
 /// The object file says which entry is valid: replacing it replaces content and metadata at once.
@@ -84,6 +91,13 @@ impl Drop for TempFile {
     }
 }
 
+impl Drop for TempDir {
+    fn drop(&mut self) {
+        // the directory does not exist any more unless the request has been cancelled
+        let _ = fs::remove_dir_all(&self.path);
+    }
+}
+
 impl FileSystem {
     /// Constructs a file system storage located at `root`
     /// # Errors
@@ -295,6 +309,23 @@ impl FileSystem {
         remove_file_if_present(&path)
     }
 
+    /// remove what is stored outside the directory of a bucket
+    ///
+    /// The caller holds the lock.
+    fn purge_bucket(&self, bucket: &str) -> io::Result<()> {
+        let prefix = format!(
+            ".bucket-{}.object-",
+            base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket)
+        );
+        for entry in fs::read_dir(&self.root)? {
+            let entry = entry?;
+            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+                remove_file_if_present(&entry.path())?;
+            }
+        }
+        Ok(())
+    }
+
     /// delete an object, which may not exist
     fn delete_key(&self, _guard: &MutexGuard<'_, ()>, bucket: &str, key: &str) -> S3Result<()> {
         self.check_bucket(bucket)?;
@@ -435,6 +466,15 @@ fn is_dir(path: &Path) -> io::Result<bool> {
     }
 }
 
+/// does the path name anything
+fn is_present(path: &Path) -> io::Result<bool> {
+    match fs::symlink_metadata(path) {
+        Ok(_) => Ok(true),
+        Err(e) if is_absent(&e) => Ok(false),
+        Err(e) => Err(e),
+    }
+}
+
 /// does the error mean that there is no file of that name
 fn is_absent(e: &io::Error) -> bool {
     matches!(
@@ -509,7 +549,8 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if path.exists() {
+        let _guard = self.lock();
+        if trace_try!(is_present(&path)) {
             let err = CreateBucketError::BucketAlreadyExists(String::from(
                 "The requested bucket name is not available. \
                     The bucket namespace is shared by all users of the system. \
@@ -518,7 +559,9 @@ impl S3Storage for FileSystem {
             return Err(operation_error(err));
         }
 
-        trace_try!(async_fs::create_dir(&path).await);
+        // in case that deleting an earlier bucket of the same name was interrupted
+        trace_try!(self.purge_bucket(&input.bucket));
+        trace_try!(fs::create_dir(&path));
 
         let output = CreateBucketOutput::default(); // TODO: handle other fields
         Ok(output)
@@ -584,7 +627,21 @@ impl S3Storage for FileSystem {
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
-        trace_try!(async_fs::remove_dir_all(path).await);
+        let trash = TempDir {
+            path: self.root.join(format!(".trash-{}", Uuid::new_v4())),
+        };
+        {
+            let _guard = self.lock();
+            self.check_bucket(&input.bucket)?;
+            trace_try!(fs::rename(&path, &trash.path));
+            if let Err(err) = self.purge_bucket(&input.bucket) {
+                // creating the bucket again tries again
+                debug!(%err, "purge bucket");
+            }
+        }
+        if let Err(err) = async_fs::remove_dir_all(&trash.path).await {
+            debug!(%err, path = %trash.path.display(), "remove deleted bucket");
+        }
         Ok(DeleteBucketOutput)
     }
 
@@ -646,7 +703,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if !path.exists() {
+        if !trace_try!(is_dir(&path)) {
             let err = code_error!(NoSuchBucket, "NotFound");
             return Err(err.into());
         }
@@ -759,7 +816,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadBucketOutput, HeadBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if !path.exists() {
+        if !trace_try!(is_dir(&path)) {
             let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
             return Err(err.into());
         }
@@ -796,12 +853,18 @@ impl S3Storage for FileSystem {
         let mut iter = trace_try!(async_fs::read_dir(&self.root).await);
         while let Some(entry) = iter.next().await {
             let entry = trace_try!(entry);
-            let file_type = trace_try!(entry.file_type().await);
+            let file_type = match entry.file_type().await {
+                Err(ref e) if is_absent(e) => continue,
+                ret => trace_try!(ret),
+            };
             if file_type.is_dir() {
                 let file_name = entry.file_name();
                 let name = file_name.to_string_lossy();
                 if S3Path::check_bucket_name(&*name) {
-                    let file_meta = trace_try!(entry.metadata().await);
+                    let file_meta = match entry.metadata().await {
+                        Err(ref e) if is_absent(e) => continue,
+                        ret => trace_try!(ret),
+                    };
                     let creation_date = trace_try!(file_meta.created());
                     buckets.push(Bucket {
                         creation_date: Some(time::to_rfc3339(creation_date)),
@@ -825,15 +888,24 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
+        self.check_bucket(&input.bucket)?;
+
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                // removed in the meantime
+                Err(ref e) if is_absent(e) => continue,
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
-                let file_type = trace_try!(entry.file_type().await);
+                let file_type = match entry.file_type().await {
+                    Err(ref e) if is_absent(e) => continue,
+                    ret => trace_try!(ret),
+                };
                 if file_type.is_dir() {
                     dir_queue.push_back(entry.path());
                 } else {
@@ -845,7 +917,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        Err(ref e) if is_absent(e) => continue,
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
@@ -891,15 +966,24 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
+        self.check_bucket(&input.bucket)?;
+
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                // removed in the meantime
+                Err(ref e) if is_absent(e) => continue,
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
-                let file_type = trace_try!(entry.file_type().await);
+                let file_type = match entry.file_type().await {
+                    Err(ref e) if is_absent(e) => continue,
+                    ret => trace_try!(ret),
+                };
                 if file_type.is_dir() {
                     dir_queue.push_back(entry.path());
                 } else {
@@ -911,7 +995,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        Err(ref e) if is_absent(e) => continue,
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
-- 
2.43.0


From 11a13b74d944e4649fdb0b3b2db157c969a47d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 08/29] fix: parse the part list of CompleteMultipartUpload

---
 src/ops/complete_multipart_upload.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 7008694..d12b4d4 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -113,8 +113,8 @@ mod xml {
     /// `CompletedMultipartUpload`
     pub struct CompletedMultipartUpload {
         /// Part
-        #[serde(rename = "Part")]
-        parts: Option<Vec<CompletedPart>>,
+        #[serde(rename = "Part", default)]
+        parts: Vec<CompletedPart>,
     }
 
     /// `CompletedPart`
@@ -131,7 +131,7 @@ mod xml {
     impl From<CompletedMultipartUpload> for super::CompletedMultipartUpload {
         fn from(m: CompletedMultipartUpload) -> Self {
             Self {
-                parts: m.parts.map(|v| v.into_iter().map(From::from).collect()),
+                parts: Some(m.parts.into_iter().map(From::from).collect()),
             }
         }
     }
-- 
2.43.0


From 8f88ac97f187c5de1a7d9733bf6d1499424da221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 09/29] fix: multipart uploads belong to a bucket and key,
 complete once, and fail without side effects

---
 src/data_structures/ordered_headers.rs |  14 ++
 src/ops/create_multipart_upload.rs     |   2 +
 src/ops/upload_part.rs                 |   1 +
 src/storages/fs.rs                     | 278 +++++++++++++++++++++----
 4 files changed, 252 insertions(+), 43 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 3ec6cb0..ecd7384 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -2,6 +2,7 @@
 
 use crate::Request;
 
+use std::collections::HashMap;
 use std::str::FromStr;
 
 use hyper::header::{AsHeaderName, ToStrError};
@@ -78,6 +79,19 @@ impl<'a> OrderedHeaders<'a> {
         Ok(())
     }
 
+    /// Collects the user metadata, `None` if there is not any
+    pub fn metadata(&self) -> Option<HashMap<String, String>> {
+        let mut metadata: HashMap<String, String> = HashMap::new();
+        for &(name, value) in self.headers.iter() {
+            if let Some(meta_key) = name.strip_prefix("x-amz-meta-") {
+                if !meta_key.is_empty() {
+                    let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+                }
+            }
+        }
+        Some(metadata).filter(|m| !m.is_empty())
+    }
+
     /// Assigns string from optional header
     pub fn assign_str(&self, name: impl AsHeaderName, opt: &mut Option<String>) {
         if let Some(s) = self.get(name) {
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..3f70f1f 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -158,5 +158,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         &mut input.object_lock_legal_hold_status,
     );
 
+    input.metadata = h.metadata();
+
     Ok(input)
 }
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..7951a5f 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -22,6 +22,7 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index fafbe54..f307c44 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -84,6 +84,19 @@ struct MetadataVersion {
     metadata: HashMap<String, String>,
 }
 
+/// A multipart upload in progress, stored in a file of its own
+#[derive(Debug, Serialize, Deserialize)]
+struct UploadFile {
+    /// key of the object
+    key: String,
+    /// user metadata of the object
+    metadata: Option<HashMap<String, String>>,
+    /// the file which holds the content from the moment on when the upload is being completed
+    ///
+    /// The upload is complete when the file has been moved to the place of the object.
+    completing: Option<PathBuf>,
+}
+
 impl Drop for TempFile {
     fn drop(&mut self) {
         // the file does not exist any more if it has been moved
@@ -309,6 +322,66 @@ impl FileSystem {
         remove_file_if_present(&path)
     }
 
+    /// resolve the path of a multipart upload
+    fn get_upload_path(&self, bucket: &str, upload_id: &str) -> PathBuf {
+        self.root.join(format!(
+            ".upload_id-{}.bucket-{}.json",
+            upload_id,
+            base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket)
+        ))
+    }
+
+    /// resolve the path of a part
+    fn get_part_path(&self, upload_id: &str, part_number: i64) -> PathBuf {
+        self.root
+            .join(format!(".upload_id-{}.part-{}", upload_id, part_number))
+    }
+
+    /// load a multipart upload in progress
+    fn load_upload(&self, bucket: &str, key: &str, upload_id: &str) -> S3Result<UploadFile> {
+        let no_such_upload = || code_error!(NoSuchUpload, "The specified upload does not exist.");
+
+        let is_valid = Uuid::parse_str(upload_id).map_or(false, |id| id.to_string() == upload_id);
+        if !is_valid {
+            return Err(no_such_upload());
+        }
+        let content = match fs::read(self.get_upload_path(bucket, upload_id)) {
+            Ok(content) => content,
+            Err(e) if is_absent(&e) => return Err(no_such_upload()),
+            Err(e) => return Err(internal_error!(e)),
+        };
+        let upload: UploadFile = trace_try!(serde_json::from_slice(&content));
+        let is_completed = match upload.completing {
+            None => false,
+            Some(ref path) => !trace_try!(is_present(path)),
+        };
+        if is_completed || upload.key != key {
+            return Err(no_such_upload());
+        }
+        Ok(upload)
+    }
+
+    /// save a multipart upload
+    fn save_upload(&self, bucket: &str, upload_id: &str, upload: &UploadFile) -> io::Result<()> {
+        let content = serde_json::to_vec(upload)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+        let temp = self.temp_file();
+        fs::write(&temp.path, &content)?;
+        fs::rename(&temp.path, self.get_upload_path(bucket, upload_id))
+    }
+
+    /// remove the parts of a multipart upload
+    fn remove_parts(&self, upload_id: &str) -> io::Result<()> {
+        let prefix = format!(".upload_id-{}.part-", upload_id);
+        for entry in fs::read_dir(&self.root)? {
+            let entry = entry?;
+            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+                remove_file_if_present(&entry.path())?;
+            }
+        }
+        Ok(())
+    }
+
     /// remove what is stored outside the directory of a bucket
     ///
     /// The caller holds the lock.
@@ -323,6 +396,23 @@ impl FileSystem {
                 remove_file_if_present(&entry.path())?;
             }
         }
+
+        let suffix = format!(
+            ".bucket-{}.json",
+            base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket)
+        );
+        for entry in fs::read_dir(&self.root)? {
+            let entry = entry?;
+            let name = entry.file_name();
+            let name = name.to_string_lossy();
+            if let Some(upload_id) = name
+                .strip_prefix(".upload_id-")
+                .and_then(|s| s.strip_suffix(&suffix))
+            {
+                self.remove_parts(upload_id)?;
+                remove_file_if_present(&entry.path())?;
+            }
+        }
         Ok(())
     }
 
@@ -466,6 +556,32 @@ fn is_dir(path: &Path) -> io::Result<bool> {
     }
 }
 
+/// a listed part does not exist
+fn invalid_part() -> S3Error {
+    code_error!(
+        InvalidPart,
+        "One or more of the specified parts could not be found."
+    )
+}
+
+/// move an uploaded part to its place
+///
+/// The versions of a part have ascending modification times.
+fn replace_part(temp: &TempFile, path: &Path) -> io::Result<()> {
+    match fs::metadata(path) {
+        Ok(m) => {
+            let old_time = m.modified()?;
+            if fs::metadata(&temp.path)?.modified()? <= old_time {
+                let file = fs::OpenOptions::new().write(true).open(&temp.path)?;
+                file.set_modified(old_time + Duration::from_secs(1))?;
+            }
+        }
+        Err(e) if is_absent(&e) => {}
+        Err(e) => return Err(e),
+    }
+    fs::rename(&temp.path, path)
+}
+
 /// does the path name anything
 fn is_present(path: &Path) -> io::Result<bool> {
     match fs::symlink_metadata(path) {
@@ -1128,6 +1244,18 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
         let upload_id = Uuid::new_v4().to_string();
 
+        let _ = self.get_object_path(&input.bucket, &input.key)?;
+        {
+            let _guard = self.lock();
+            self.check_bucket(&input.bucket)?;
+            let upload = UploadFile {
+                key: input.key.clone(),
+                metadata: input.metadata,
+                completing: None,
+            };
+            trace_try!(self.save_upload(&input.bucket, &upload_id, &upload));
+        }
+
         let output = CreateMultipartUploadOutput {
             bucket: Some(input.bucket),
             key: Some(input.key),
@@ -1145,6 +1273,8 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<UploadPartOutput, UploadPartError> {
         let UploadPartRequest {
             body,
+            bucket,
+            key,
             upload_id,
             part_number,
             content_md5,
@@ -1155,8 +1285,15 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
-        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-        let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
+        if !(1..=10_000).contains(&part_number) {
+            let err = code_error!(
+                InvalidArgument,
+                "Part number must be an integer between 1 and 10000, inclusive."
+            );
+            return Err(err.into());
+        }
+        let _ = self.load_upload(&bucket, &key, &upload_id)?;
+        let file_path = self.get_part_path(&upload_id, part_number);
 
         let mut md5_hash = Md5::new();
         let stream = body
@@ -1181,7 +1318,11 @@ impl S3Storage for FileSystem {
         );
 
         drop(writer);
-        trace_try!(fs::rename(&temp.path, &file_path));
+        {
+            let _guard = self.lock();
+            let _ = self.load_upload(&bucket, &key, &upload_id)?;
+            trace_try!(replace_part(&temp, &file_path));
+        }
 
         let e_tag = format!("\"{}\"", md5_sum);
 
@@ -1214,54 +1355,105 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        let (temp, file) = trace_try!(self.create_temp_file());
-        let mut writer = BufWriter::new(file);
-        let mut part_paths = Vec::new();
-
+        let _ = self.load_upload(&bucket, &key, &upload_id)?;
+        let parts = multipart_upload.parts.unwrap_or_default();
+        if parts.is_empty() {
+            let err = code_error!(MalformedXML, "You must specify at least one part");
+            return Err(err.into());
+        }
         let mut cnt: i64 = 0;
-        for part in multipart_upload.parts.into_iter().flatten() {
-            let part_number = trace_try!(part
+        for part in &parts {
+            let part_number = part
                 .part_number
-                .ok_or_else(|| { io::Error::new(io::ErrorKind::NotFound, "Missing part_number") }));
-            cnt = cnt.wrapping_add(1);
-            if part_number != cnt {
-                trace_try!(Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "InvalidPartOrder"
-                )));
+                .ok_or_else(|| code_error!(MalformedXML, "Missing part_number"))?;
+            if part_number <= cnt {
+                let err = code_error!(
+                    InvalidPartOrder,
+                    "The list of parts was not in ascending order."
+                );
+                return Err(err.into());
             }
-            let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-            let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
-
-            let mut reader = trace_try!(File::open(&part_path).await);
-            let (ret, duration) =
-                time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
-            let size = trace_try!(ret);
-
-            debug!(
-                from = %part_path.display(),
-                to = %object_path.display(),
-                ?size,
-                ?duration,
-                "CompleteMultipartUpload: write file",
-            );
-            part_paths.push(part_path.into_owned());
+            cnt = part_number;
         }
-        trace_try!(writer.flush().await);
-        drop(writer);
 
-        let file_size = trace_try!(async_fs::metadata(&temp.path).await).len();
+        let (md5_sum, file_size, duration) = 'retry: loop {
+            let (mut temp, file) = trace_try!(self.create_temp_file());
+            let mut writer = BufWriter::new(file);
+            let mut part_tags = Vec::new();
+            let mut file_size: u64 = 0;
+            let mut md5_hash = Md5::new();
 
-        let (md5_sum, duration) = {
-            let mut file = trace_try!(File::open(&temp.path).await);
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
-            let md5_sum = trace_try!(ret);
-            (md5_sum, duration)
+            let mut total_duration = Duration::default();
+            for part in &parts {
+                let part_path = self.get_part_path(&upload_id, part.part_number.unwrap_or(0));
+
+                let mut reader = match File::open(&part_path).await {
+                    Err(ref e) if is_absent(e) => return Err(invalid_part().into()),
+                    ret => trace_try!(ret),
+                };
+                part_tags.push((
+                    part_path.clone(),
+                    trace_try!(version_tag(&trace_try!(reader.metadata().await))),
+                ));
+                if let Some(ref e_tag) = part.e_tag {
+                    let md5_sum = trace_try!(self.get_md5_sum(&mut reader).await);
+                    if e_tag.trim_matches('"') != md5_sum {
+                        return Err(invalid_part().into());
+                    }
+                    let _ = trace_try!(reader.seek(SeekFrom::Start(0)).await);
+                }
+                let stream = BytesStream::new(reader, 65536, None)
+                    .inspect_ok(|bytes| md5_hash.update(bytes.as_ref()))
+                    .map_err(|e| internal_error!(e));
+                let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
+                let size = ret?;
+
+                debug!(
+                    from = %part_path.display(),
+                    to = %object_path.display(),
+                    ?size,
+                    ?duration,
+                    "CompleteMultipartUpload: write file",
+                );
+                total_duration = total_duration.saturating_add(duration);
+                file_size = file_size.wrapping_add(trace_try!(size.try_into()));
+            }
+            trace_try!(writer.flush().await);
+            drop(writer);
+
+            let guard = self.lock();
+            let mut upload = self.load_upload(&bucket, &key, &upload_id)?;
+            for &(ref part_path, ref tag) in &part_tags {
+                match fs::metadata(part_path) {
+                    Ok(m) if trace_try!(version_tag(&m)) == *tag => {}
+                    Ok(_) => continue 'retry, // uploaded again in the meantime
+                    Err(e) => return Err(internal_error!(e).into()),
+                }
+            }
+            upload.completing = Some(temp.path.clone());
+            trace_try!(self.save_upload(&bucket, &upload_id, &upload));
+            let metadata = upload.metadata.as_ref();
+            if let Err(err) = self.commit_object(&guard, &temp, &bucket, &key, metadata) {
+                upload.completing = None;
+                if let Err(err) = self.save_upload(&bucket, &upload_id, &upload) {
+                    // the upload is in progress as long as there is the temporary file
+                    debug!(%err, "roll back completion");
+                    temp.path = PathBuf::new();
+                }
+                return Err(err.into());
+            }
+            drop(guard);
+
+            let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+            break (md5_sum, file_size, total_duration);
         };
 
-        self.commit_object(&self.lock(), &temp, &bucket, &key, None)?;
-        for part_path in part_paths {
-            trace_try!(fs::remove_file(&part_path));
+        let ret = self
+            .remove_parts(&upload_id)
+            .and_then(|_| remove_file_if_present(&self.get_upload_path(&bucket, &upload_id)));
+        if let Err(err) = ret {
+            // the upload is complete all the same
+            debug!(%err, "remove completed upload");
         }
 
         debug!(
-- 
2.43.0


From 83d757cac77a0d379bac3184e8c007ecdfc8039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 10/29] fix: decode the copy source and honour the metadata
 directive

---
 src/headers/amz_copy_source.rs | 14 ++++++++++++--
 src/ops/copy_object.rs         |  5 ++++-
 src/storages/fs.rs             | 22 ++++++++++++++++++++--
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 185394b..ce9d57b 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -2,6 +2,8 @@
 
 use crate::path::S3Path;
 
+use std::borrow::Cow;
+
 use regex::Regex;
 
 /// x-amz-copy-source
@@ -46,12 +48,20 @@ pub enum ParseAmzCopySourceError {
 }
 
 impl<'a> AmzCopySource<'a> {
+    /// Decodes the header value, which is url encoded and may start with a slash
+    /// # Errors
+    /// Returns an error if the header is invalid
+    pub fn decode(header: &str) -> Result<Cow<'_, str>, ParseAmzCopySourceError> {
+        let header = header.strip_prefix('/').unwrap_or(header);
+        urlencoding::decode(header).map_err(|_| ParseAmzCopySourceError::InvalidKey)
+    }
+
     /// Checks header pattern
     /// # Errors
     /// Returns an error if the header does not match the pattern
     pub fn try_match(header: &str) -> Result<(), ParseAmzCopySourceError> {
         // x-amz-copy-source header pattern
-        let pattern: &Regex = static_regex!(".+?/.+");
+        let pattern: &Regex = static_regex!("(?s).+?/.+");
 
         if pattern.is_match(header) {
             Ok(())
@@ -69,7 +79,7 @@ impl<'a> AmzCopySource<'a> {
         // TODO: use nom parser
 
         // bucket pattern
-        let pattern: &Regex = static_regex!("^(.+?)/(.+)$");
+        let pattern: &Regex = static_regex!("(?s)^(.+?)/(.+)$");
 
         match pattern.captures(header) {
             None => Err(ParseAmzCopySourceError::PatternMismatch),
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..b471689 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -53,7 +53,8 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
     let (bucket, key) = ctx.unwrap_object_path();
     let copy_source = ctx.unwrap_header(X_AMZ_COPY_SOURCE);
 
-    AmzCopySource::try_match(copy_source)
+    AmzCopySource::decode(copy_source)
+        .and_then(|s| AmzCopySource::try_match(&s))
         .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
     let mut input: CopyObjectRequest = CopyObjectRequest {
@@ -143,6 +144,8 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         &mut input.object_lock_legal_hold_status,
     );
 
+    input.metadata = h.metadata();
+
     Ok(input)
 }
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f307c44..b92a298 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -688,7 +688,13 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        if input.copy_source.contains("?versionId=") {
+            let err = code_error!(NotImplemented, "Versioning is not supported yet.");
+            return Err(err.into());
+        }
+        let copy_source = AmzCopySource::decode(&input.copy_source)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
+        let copy_source = AmzCopySource::from_header_str(&copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
@@ -722,7 +728,19 @@ impl S3Storage for FileSystem {
         );
 
         drop(writer);
-        let dst_metadata = src_metadata.as_ref();
+        let is_replaced = match input.metadata_directive.as_deref() {
+            None | Some("COPY") => false,
+            Some("REPLACE") => true,
+            Some(_) => {
+                let err = code_error!(InvalidArgument, "Unknown metadata directive.");
+                return Err(err.into());
+            }
+        };
+        let dst_metadata = if is_replaced {
+            input.metadata.as_ref()
+        } else {
+            src_metadata.as_ref()
+        };
         self.commit_object(&self.lock(), &temp, &input.bucket, &input.key, dst_metadata)?;
 
         let output = CopyObjectOutput {
-- 
2.43.0


From 8bf565841938104b96711e94575ec10d4dcaea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 11/29] fix: refuse sub-resources which are not implemented
 instead of ignoring them

---
 src/internal_macros.rs |  4 +--
 src/service.rs         | 78 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index e7ddd07..aa41c46 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -102,10 +102,10 @@ macro_rules! code_error {
     }};
 }
 
-/// Create a `NotSupported` error
+/// Create a `NotImplemented` error
 macro_rules! not_supported {
     ($msg:expr) => {{
-        code_error!(NotSupported, $msg)
+        code_error!(NotImplemented, $msg)
     }};
 }
 
diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..ab9f487 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -4,7 +4,9 @@ use crate::auth::S3Auth;
 use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::{S3AuthError, S3ErrorCode, S3Result};
 use crate::headers::{AmzContentSha256, AmzDate, AuthorizationV4, CredentialV4};
-use crate::headers::{AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_DATE};
+use crate::headers::{
+    AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_COPY_SOURCE, X_AMZ_DATE,
+};
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
@@ -169,6 +171,8 @@ impl S3Service {
             ));
         }
 
+        check_supported(&ctx)?;
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
@@ -179,6 +183,78 @@ impl S3Service {
     }
 }
 
+/// Refuse requests for a sub-resource which is not supported,
+/// they must not be executed as if the sub-resource had not been named
+fn check_supported(ctx: &ReqContext<'_>) -> S3Result<()> {
+    /// names of sub-resources
+    const SUB_RESOURCES: [&str; 40] = [
+        "accelerate",
+        "acl",
+        "analytics",
+        "attributes",
+        "cors",
+        "delete",
+        "encryption",
+        "intelligent-tiering",
+        "inventory",
+        "legal-hold",
+        "lifecycle",
+        "list-type",
+        "location",
+        "logging",
+        "metadataTable",
+        "metrics",
+        "notification",
+        "object-lock",
+        "ownershipControls",
+        "partNumber",
+        "policy",
+        "policyStatus",
+        "publicAccessBlock",
+        "renameObject",
+        "replication",
+        "requestPayment",
+        "restore",
+        "retention",
+        "select",
+        "select-type",
+        "session",
+        "tagging",
+        "torrent",
+        "uploadId",
+        "uploads",
+        "versionId",
+        "versioning",
+        "versions",
+        "website",
+        "x-amz-copy-source",
+    ];
+
+    let qs: &[(String, String)] = ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
+    let mut names: Vec<&str> = qs
+        .iter()
+        .map(|&(ref name, _)| name.as_str())
+        .filter(|name| SUB_RESOURCES.contains(name))
+        .collect();
+    names.sort_unstable();
+
+    let is_copy = ctx.headers.get(X_AMZ_COPY_SOURCE).is_some();
+    let method = ctx.req.method();
+    let is_supported = match *names.as_slice() {
+        [] => true,
+        ["location"] | ["list-type"] => ctx.path.is_bucket() && method == Method::GET,
+        ["delete"] => ctx.path.is_bucket() && method == Method::POST,
+        ["uploads"] | ["uploadId"] => ctx.path.is_object() && method == Method::POST,
+        ["partNumber", "uploadId"] => ctx.path.is_object() && method == Method::PUT && !is_copy,
+        _ => false,
+    };
+    if is_supported {
+        Ok(())
+    } else {
+        Err(not_supported!("The operation is not supported yet."))
+    }
+}
+
 /// Extract urlencoded URI from Request
 fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
     urlencoding::decode(req.uri().path())
-- 
2.43.0


From f8972d3acce33bed5dd0ce828af09e8f22da4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 12/29] fix: compute the canonical request of a signature as
 clients do

The path is decoded before it is encoded again, repeated headers are joined in order, sequential spaces are collapsed and a signed user-agent counts.
---
 src/data_structures/ordered_headers.rs |  3 +-
 src/service.rs                         |  4 +-
 src/signature_v4.rs                    | 83 +++++++++++++++-----------
 3 files changed, 53 insertions(+), 37 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index ecd7384..2e35681 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -36,7 +36,8 @@ impl<'a> OrderedHeaders<'a> {
         for (name, value) in req.headers().iter() {
             headers.push((name.as_str(), value.to_str()?));
         }
-        headers.sort_unstable();
+        // the values of a repeated header stay in order
+        headers.sort_by_key(|&(name, _)| name);
 
         Ok(Self { headers })
     }
diff --git a/src/service.rs b/src/service.rs
index ab9f487..9de10af 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -497,7 +497,7 @@ async fn check_presigned_url(
 
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            &decode_uri_path(ctx.req)?,
             qs.as_ref(),
             &headers,
         );
@@ -550,7 +550,7 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
+        let uri_path = &*decode_uri_path(ctx.req)?;
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..b4138d7 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -92,7 +92,11 @@ impl<'a> PresignedUrl<'a> {
         if !info.x_amz_signed_headers.is_ascii() {
             return Err(ParsePresignedUrlError { _priv: () });
         }
-        let signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        let signed_headers = info
+            .x_amz_signed_headers
+            .split(';')
+            .collect::<Vec<&str>>()
+            .also(|names| names.sort_unstable());
 
         if !crypto::is_sha256_checksum(info.x_amz_signature) {
             return Err(ParsePresignedUrlError { _priv: () });
@@ -153,7 +157,40 @@ fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
 
 /// is skipped header
 fn is_skipped_header(header: &str) -> bool {
-    ["authorization", "user-agent"].contains(&header)
+    header == "authorization"
+}
+
+/// push canonical headers
+///
+/// + the values of a repeated header are joined in the order they were sent
+/// + sequential spaces in a value are converted to a single space
+fn push_canonical_headers(output: &mut String, headers: &OrderedHeaders<'_>) {
+    let mut prev_name = None;
+    for &(name, value) in headers.as_ref().iter() {
+        if is_skipped_header(name) {
+            continue;
+        }
+        if prev_name == Some(name) {
+            output.push(',');
+        } else {
+            if prev_name.is_some() {
+                output.push('\n');
+            }
+            output.push_str(name);
+            output.push(':');
+            prev_name = Some(name);
+        }
+        let mut prev_char = None;
+        for c in value.trim().chars() {
+            if c != ' ' || prev_char != Some(' ') {
+                output.push(c);
+            }
+            prev_char = Some(c);
+        }
+    }
+    if prev_name.is_some() {
+        output.push('\n');
+    }
 }
 
 /// is skipped query string
@@ -231,32 +268,21 @@ pub fn create_canonical_request(
         .also(|ans| {
             // <CanonicalHeaders>\n
 
-            // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
-
-            for &(name, value) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
-                    continue;
-                }
-                ans.push_str(name);
-                ans.push(':');
-                ans.push_str(value.trim());
-                ans.push('\n');
-            }
+            push_canonical_headers(ans, headers);
             ans.push('\n');
         })
         .also(|ans| {
             // <SignedHeaders>\n
-            let mut first_flag = true;
+            let mut prev_name = None;
             for &(name, _) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
+                if is_skipped_header(name) || prev_name == Some(name) {
                     continue;
                 }
-                if first_flag {
-                    first_flag = false;
-                } else {
+                if prev_name.is_some() {
                     ans.push(';');
                 }
                 ans.push_str(name);
+                prev_name = Some(name);
             }
 
             ans.push('\n');
@@ -420,32 +446,21 @@ pub fn create_presigned_canonical_request(
         .also(|ans| {
             // <CanonicalHeaders>\n
 
-            // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
-
-            for &(name, value) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
-                    continue;
-                }
-                ans.push_str(name);
-                ans.push(':');
-                ans.push_str(value.trim());
-                ans.push('\n');
-            }
+            push_canonical_headers(ans, headers);
             ans.push('\n');
         })
         .also(|ans| {
             // <SignedHeaders>\n
-            let mut first_flag = true;
+            let mut prev_name = None;
             for &(name, _) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
+                if is_skipped_header(name) || prev_name == Some(name) {
                     continue;
                 }
-                if first_flag {
-                    first_flag = false;
-                } else {
+                if prev_name.is_some() {
                     ans.push(';');
                 }
                 ans.push_str(name);
+                prev_name = Some(name);
             }
 
             ans.push('\n');
-- 
2.43.0


From dbbaac439914c15a286fe2cfe0dd1004ff63d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 13/29] fix: refuse signatures which have expired or leave
 headers unsigned

A presigned url is valid from 15 minutes before its date until it expires and a signed request within 15 minutes of its date. The host and all x-amz-* headers have to be signed, the credential scope has to fit.
---
 src/headers/amz_date.rs | 45 +++++++++++++++----
 src/service.rs          | 98 ++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 133 insertions(+), 10 deletions(-)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..ef8b3de 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -1,5 +1,9 @@
 //! x-amz-date
 
+use std::convert::TryInto;
+
+use chrono::{DateTime, Duration, TimeZone, Utc};
+
 /// x-amz-date
 #[derive(Debug, Clone, Copy)]
 pub struct AmzDate {
@@ -78,17 +82,42 @@ impl AmzDate {
 
         match parse(header) {
             Err(_) => Err(ParseAmzDateError { _priv: () }),
-            Ok((_, [year_str, month_str, day_str, hour_str, minute_str, second_str])) => Ok(Self {
-                year: to_u32(year_str)?,
-                month: to_u32(month_str)?,
-                day: to_u32(day_str)?,
-                hour: to_u32(hour_str)?,
-                minute: to_u32(minute_str)?,
-                second: to_u32(second_str)?,
-            }),
+            Ok((_, [year_str, month_str, day_str, hour_str, minute_str, second_str])) => {
+                let date = Self {
+                    year: to_u32(year_str)?,
+                    month: to_u32(month_str)?,
+                    day: to_u32(day_str)?,
+                    hour: to_u32(hour_str)?,
+                    minute: to_u32(minute_str)?,
+                    second: to_u32(second_str)?,
+                };
+                match date.to_datetime() {
+                    Some(_) => Ok(date),
+                    None => Err(ParseAmzDateError { _priv: () }),
+                }
+            }
         }
     }
 
+    /// Converts to a point in time, `None` if there is no such date
+    fn to_datetime(self) -> Option<DateTime<Utc>> {
+        let year = self.year.try_into().ok()?;
+        Utc.with_ymd_and_hms(
+            year,
+            self.month,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+        )
+        .single()
+    }
+
+    /// Returns how much time has passed at `now`, negative if the date is in the future
+    pub(crate) fn elapsed(self, now: DateTime<Utc>) -> Option<Duration> {
+        Some(now.signed_duration_since(self.to_datetime()?))
+    }
+
     /// `YYYYMMDD'T'HHMMSS'Z'`
     #[must_use]
     pub fn to_iso8601(&self) -> String {
diff --git a/src/service.rs b/src/service.rs
index 9de10af..0e61b3a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -25,6 +25,7 @@ use std::ops::Deref;
 use std::sync::Arc;
 use std::task::{Context, Poll};
 
+use chrono::{Duration, Utc};
 use futures::future::BoxFuture;
 use futures::stream::{Stream, StreamExt};
 use hyper::body::Bytes;
@@ -369,6 +370,75 @@ async fn fetch_secret_key(auth: &(dyn S3Auth + Send + Sync), access_key: &str) -
     }
 }
 
+/// The difference which is tolerated between the time of a request and the time of the server
+const MAX_SKEW_MINUTES: i64 = 15;
+
+/// check that a credential is meant for the request it comes with
+fn check_credential_scope(credential: &CredentialV4<'_>, amz_date: &AmzDate) -> S3Result<()> {
+    if credential.aws_service == "s3" && credential.date == amz_date.to_date() {
+        Ok(())
+    } else {
+        Err(code_error!(
+            AuthorizationHeaderMalformed,
+            "The credential scope does not fit the request."
+        ))
+    }
+}
+
+/// check that `host` and all `x-amz-*` headers have been signed
+fn check_signed_headers(headers: &OrderedHeaders<'_>, signed_headers: &[&str]) -> S3Result<()> {
+    let is_unsigned = |name: &str| signed_headers.iter().all(|&signed| signed != name);
+
+    let is_refused = is_unsigned("host")
+        || headers
+            .as_ref()
+            .iter()
+            .any(|&(name, _)| name.starts_with("x-amz-") && is_unsigned(name));
+
+    if is_refused {
+        Err(code_error!(
+            AccessDenied,
+            "There were headers present in the request which were not signed."
+        ))
+    } else {
+        Ok(())
+    }
+}
+
+/// check that a request has been signed just now
+fn check_request_time(amz_date: &AmzDate) -> S3Result<()> {
+    let max_skew = Duration::minutes(MAX_SKEW_MINUTES);
+    match amz_date.elapsed(Utc::now()) {
+        Some(elapsed) if elapsed <= max_skew && elapsed >= -max_skew => Ok(()),
+        _ => Err(code_error!(
+            RequestTimeTooSkewed,
+            "The difference between the request time and the server's time is too large."
+        )),
+    }
+}
+
+/// check that a presigned url is valid now
+fn check_presigned_time(presigned_url: &signature_v4::PresignedUrl<'_>) -> S3Result<()> {
+    /// seven days
+    const MAX_EXPIRES: u32 = 604_800;
+
+    if presigned_url.expires > MAX_EXPIRES {
+        return Err(invalid_request!(
+            "X-Amz-Expires must be less than a week (in seconds)."
+        ));
+    }
+
+    match presigned_url.amz_date.elapsed(Utc::now()) {
+        Some(elapsed)
+            if elapsed >= -Duration::minutes(MAX_SKEW_MINUTES)
+                && elapsed <= Duration::seconds(presigned_url.expires.into()) =>
+        {
+            Ok(())
+        }
+        _ => Err(code_error!(AccessDenied, "Request has expired.")),
+    }
+}
+
 /// check post signature (v4)
 async fn check_post_signature(
     ctx: &mut ReqContext<'_>,
@@ -475,8 +545,11 @@ async fn check_presigned_url(
     let presigned_url = signature_v4::PresignedUrl::from_query(qs)
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
 
-    // TODO: how to use it?
-    let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
+    if let Some(AmzContentSha256::MultipleChunks) = extract_amz_content_sha256(&ctx.headers)? {
+        return Err(not_supported!(
+            "A presigned url can not be used with a chunked payload."
+        ));
+    }
 
     let auth_provider = match auth {
         Some(a) => a,
@@ -487,6 +560,14 @@ async fn check_presigned_url(
         }
     };
 
+    if presigned_url.algorithm != "AWS4-HMAC-SHA256" {
+        return Err(not_supported!(
+            "X-Amz-Algorithm other than AWS4-HMAC-SHA256 is not supported."
+        ));
+    }
+    check_credential_scope(&presigned_url.credential, &presigned_url.amz_date)?;
+    check_signed_headers(&ctx.headers, &presigned_url.signed_headers)?;
+
     let secret_key =
         fetch_secret_key(auth_provider, presigned_url.credential.access_key_id).await?;
 
@@ -514,6 +595,8 @@ async fn check_presigned_url(
         return Err(signature_mismatch!());
     }
 
+    check_presigned_time(&presigned_url)?;
+
     Ok(())
 }
 
@@ -540,12 +623,21 @@ async fn check_header_auth(
     let amz_content_sha256 = extract_amz_content_sha256(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-content-sha256"))?;
 
+    if authorization.algorithm != "AWS4-HMAC-SHA256" {
+        return Err(not_supported!(
+            "Authorization other than AWS4-HMAC-SHA256 is not supported."
+        ));
+    }
+    check_signed_headers(&ctx.headers, &authorization.signed_headers)?;
+
     let secret_key =
         fetch_secret_key(auth_provider, authorization.credential.access_key_id).await?;
 
     let amz_date = extract_amz_date(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-date"))?;
 
+    check_credential_scope(&authorization.credential, &amz_date)?;
+
     let is_stream = matches!(amz_content_sha256, AmzContentSha256::MultipleChunks);
 
     let signature = {
@@ -605,6 +697,8 @@ async fn check_header_auth(
         return Err(signature_mismatch!());
     }
 
+    check_request_time(&amz_date)?;
+
     if is_stream {
         let body = take_io_body(&mut ctx.body);
 
-- 
2.43.0


From 209e9ee7f47a1b2736b907737884fc9bc7f0fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 14/29] fix: a chunked payload ends with its final chunk and
 nothing follows it

---
 src/streams/aws_chunked_stream.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..105313a 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -95,7 +95,7 @@ fn parse_chunk_meta(mut input: &[u8]) -> nom::IResult<&[u8], ChunkMeta<'_>> {
         (size_str, signature)
     });
 
-    let (_, size) = map_res(hex_u32, TryInto::try_into)(size_str)?;
+    let (_, size) = all_consuming(map_res(hex_u32, TryInto::try_into))(size_str)?;
 
     Ok((input, ChunkMeta { size, signature }))
 }
@@ -155,7 +155,8 @@ impl AwsChunkedStream {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    // the final chunk is missing
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
@@ -182,12 +183,26 @@ impl AwsChunkedStream {
                                 Some(signature) => ctx.prev_signature = signature,
                             }
 
+                            if meta.size == 0 {
+                                break;
+                            }
+
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
                         }
 
-                        Ok(())
+                        // nothing follows the final chunk
+                        loop {
+                            if !prev_bytes.is_empty() {
+                                return Err(AwsChunkedStreamError::FormatError);
+                            }
+                            match body.as_mut().next().await {
+                                None => return Ok(()),
+                                Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
+                                Some(Ok(bytes)) => prev_bytes = bytes,
+                            }
+                        }
                     })
                 },
             );
-- 
2.43.0


From 10b3235b19d48b8abea81853f714cbf5daf08641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 15/29] fix: read the form of a POST upload to its end however
 it is split into frames

---
 src/streams/multipart.rs | 100 +++++++++++++++++++++++++++++++++------
 src/utils/body.rs        |   2 +-
 2 files changed, 86 insertions(+), 16 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..8ea04f8 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -12,8 +12,8 @@ use std::mem;
 use std::pin::Pin;
 
 use futures::stream::{Stream, StreamExt};
-use hyper::body::Bytes;
-use memchr::memchr_iter;
+use hyper::body::{Buf, Bytes};
+use memchr::{memchr_iter, memmem};
 use transform_stream::{AsyncTryStream, Yielder};
 
 /// Form file
@@ -152,7 +152,7 @@ where
         }
     };
 
-    let mut headers = [httparse::EMPTY_HEADER; 2];
+    let mut headers = [httparse::EMPTY_HEADER; 16];
     loop {
         let (idx, parsed_headers) = match httparse::parse_headers(lines.slice, &mut headers) {
             Ok(httparse::Status::Complete(ans)) => ans,
@@ -174,8 +174,7 @@ where
         }
 
         let content_disposition = match content_disposition_bytes.map(parse_content_disposition) {
-            None => return Err((body, pat)),
-            Some(Err(_)) => return Ok(Err(generate_format_error())),
+            None | Some(Err(_)) => return Ok(Err(generate_format_error())),
             Some(Ok((_, c))) => c,
         };
         match content_disposition.filename {
@@ -197,7 +196,7 @@ where
             }
             Some(filename) => {
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
-                    None => return Err((body, pat)),
+                    None => "",
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
                     Some(Ok(s)) => s,
                 };
@@ -206,7 +205,7 @@ where
                 } else {
                     Some(Bytes::copy_from_slice(lines.slice))
                 };
-                let file_stream = FileStream::new(body, boundary, remaining_bytes);
+                let file_stream = FileStream::new_last(body, boundary, remaining_bytes);
                 let file = File {
                     name: filename.to_owned(),
                     content_type: content_type.to_owned(),
@@ -228,6 +227,9 @@ pub enum FileStreamError {
     /// Incomplete error
     #[error("FileStreamError: Incomplete")]
     Incomplete,
+    /// Format error
+    #[error("FileStreamError: Format")]
+    Format,
     /// IO error
     #[error("FileStreamError: IO: {}",.0)]
     Io(io::Error),
@@ -250,8 +252,74 @@ impl Debug for FileStream {
 }
 
 impl FileStream {
-    /// Constructs a `FileStream`
+    /// Constructs a `FileStream` which ends with the first boundary
+    #[cfg(test)]
     fn new<S>(body: Pin<Box<S>>, boundary: &'_ [u8], prev_bytes: Option<Bytes>) -> Self
+    where
+        S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
+    {
+        Self::generate(body, boundary, prev_bytes, false)
+    }
+
+    /// Constructs a `FileStream` which ends when the whole body has been read,
+    /// there may not be anything but ignored fields after the file
+    fn new_last<S>(body: Pin<Box<S>>, boundary: &'_ [u8], prev_bytes: Option<Bytes>) -> Self
+    where
+        S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
+    {
+        Self::generate(body, boundary, prev_bytes, true)
+    }
+
+    /// Reads the body up to its end, `tail` is what follows a boundary
+    async fn finish<S>(
+        mut body: Pin<Box<S>>,
+        crlf_pat: &'_ [u8],
+        tail: Bytes,
+    ) -> Result<(), FileStreamError>
+    where
+        S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
+    {
+        /// limit of the ignored fields
+        const MAX_IGNORED: usize = 0x10_0000;
+
+        let mut tail: Vec<u8> = tail.to_vec();
+        loop {
+            if tail.starts_with(b"--") {
+                break;
+            }
+            if tail.starts_with(b"\r\n") {
+                // one more field
+                if let Some(idx) = memmem::find(&tail, crlf_pat) {
+                    drop(tail.drain(..idx.saturating_add(crlf_pat.len())));
+                    continue;
+                }
+            } else if !b"\r\n".starts_with(&tail) && !b"--".starts_with(&tail) {
+                return Err(FileStreamError::Format);
+            } else {
+                // not enough bytes
+            }
+            if tail.len() > MAX_IGNORED {
+                return Err(FileStreamError::Format);
+            }
+            match body.as_mut().next().await {
+                None => return Err(FileStreamError::Incomplete),
+                Some(Err(e)) => return Err(FileStreamError::Io(e)),
+                Some(Ok(b)) => tail.extend_from_slice(&b),
+            }
+        }
+        while let Some(ret) = body.as_mut().next().await {
+            drop(ret.map_err(FileStreamError::Io)?);
+        }
+        Ok(())
+    }
+
+    /// Constructs a `FileStream`
+    fn generate<S>(
+        body: Pin<Box<S>>,
+        boundary: &'_ [u8],
+        prev_bytes: Option<Bytes>,
+        is_last: bool,
+    ) -> Self
     where
         S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
     {
@@ -261,6 +329,7 @@ impl FileStream {
             mut body: Pin<Box<S>>,
             crlf_pat: Box<[u8]>,
             prev_bytes: Option<Bytes>,
+            is_last: bool,
         ) -> Result<(), FileStreamError>
         where
             S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
@@ -296,8 +365,12 @@ impl FileStream {
 
                             if remaining.len() >= crlf_pat.len() {
                                 if remaining.starts_with(&crlf_pat) {
-                                    bytes.truncate(idx);
+                                    let mut tail = bytes.split_off(idx);
+                                    tail.advance(crlf_pat.len());
                                     y.yield_ok(bytes).await;
+                                    if is_last {
+                                        return FileStream::finish(body, &crlf_pat, tail).await;
+                                    }
                                     return Ok(());
                                 }
                                 continue;
@@ -343,7 +416,7 @@ impl FileStream {
         Self {
             inner: AsyncTryStream::new(
                 |y| -> SyncBoxFuture<'static, Result<(), FileStreamError>> {
-                    Box::pin(gen(y, body, crlf_pat, prev_bytes))
+                    Box::pin(gen(y, body, crlf_pat, prev_bytes, is_last))
                 },
             ),
         }
@@ -389,11 +462,8 @@ impl<'a> CrlfLines<'a> {
                 return Some(left);
             }
         }
-        if self.slice.is_empty() {
-            None
-        } else {
-            Some(mem::take(&mut self.slice))
-        }
+        // the rest of the line has not arrived yet
+        None
     }
 
     /// split by pattern and return previous bytes
diff --git a/src/utils/body.rs b/src/utils/body.rs
index e75e451..85d4ede 100644
--- a/src/utils/body.rs
+++ b/src/utils/body.rs
@@ -32,7 +32,7 @@ pub fn transform_file_stream(file_stream: FileStream) -> ByteStream {
     file_stream
         .map(|try_chunk| {
             try_chunk.map_err(|e| match e {
-                FileStreamError::Incomplete => {
+                FileStreamError::Incomplete | FileStreamError::Format => {
                     io::Error::new(io::ErrorKind::Other, format!("Error obtaining chunk: {e}"))
                 }
                 FileStreamError::Io(e) => e,
-- 
2.43.0


From 340debbd445ac3fab3ed8294276da2d499f246e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 16/29] fix: enforce the policy of a POST upload

The expiration, the conditions on fields, the coverage of all fields and the content-length-range were not looked at.
---
 src/lib.rs               |   1 +
 src/post_policy.rs       | 188 +++++++++++++++++++++++++++++++++++++++
 src/service.rs           |  25 +++++-
 src/storages/fs.rs       |   6 ++
 src/streams/multipart.rs |  43 +++++++--
 src/utils/body.rs        |   8 ++
 6 files changed, 262 insertions(+), 9 deletions(-)
 create mode 100644 src/post_policy.rs

diff --git a/src/lib.rs b/src/lib.rs
index e3ad9db..bb14fd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,6 +130,7 @@ pub(crate) mod utils;
 mod data_structures;
 mod ops;
 mod output;
+mod post_policy;
 mod signature_v4;
 mod streams;
 
diff --git a/src/post_policy.rs b/src/post_policy.rs
new file mode 100644
index 0000000..330b3a1
--- /dev/null
+++ b/src/post_policy.rs
@@ -0,0 +1,188 @@
+//! POST policy
+//!
+//! See <https://docs.aws.amazon.com/AmazonS3/latest/API/sigv4-HTTPPOSTConstructPolicy.html>
+//!
+
+use crate::errors::{S3Error, S3Result};
+
+use chrono::{DateTime, Utc};
+use serde::Deserialize;
+use serde_json::Value;
+
+/// POST policy document
+#[derive(Debug, Deserialize)]
+struct Document {
+    /// expiration
+    expiration: String,
+    /// conditions
+    #[serde(default)]
+    conditions: Vec<Value>,
+}
+
+/// condition on a form field
+#[derive(Debug)]
+enum Condition {
+    /// the value is equal to
+    Eq(String, String),
+    /// the value starts with
+    StartsWith(String, String),
+}
+
+/// POST policy
+#[derive(Debug)]
+pub struct PostPolicy {
+    /// expiration
+    expiration: DateTime<Utc>,
+    /// conditions
+    conditions: Vec<Condition>,
+    /// minimum and maximum size of the file
+    content_length_range: Option<(u64, u64)>,
+}
+
+impl Condition {
+    /// Gets the name of the field
+    fn field(&self) -> &str {
+        match *self {
+            Self::Eq(ref field, _) | Self::StartsWith(ref field, _) => field,
+        }
+    }
+
+    /// Checks a value
+    fn accepts(&self, value: &str) -> bool {
+        match *self {
+            Self::Eq(_, ref expected) => value == expected,
+            Self::StartsWith(_, ref prefix) => value.starts_with(prefix),
+        }
+    }
+}
+
+/// invalid policy
+fn invalid_policy() -> S3Error {
+    code_error!(
+        InvalidPolicyDocument,
+        "The content of the form does not meet the conditions specified in the policy document."
+    )
+}
+
+/// policy violation
+fn denied(reason: &str) -> S3Error {
+    code_error!(
+        AccessDenied,
+        format!("Invalid according to Policy: {reason}")
+    )
+}
+
+impl PostPolicy {
+    /// Parses a base64 encoded policy document
+    pub fn parse(policy: &str) -> S3Result<Self> {
+        let document: Document = base64_simd::STANDARD
+            .decode_to_vec(policy)
+            .ok()
+            .and_then(|bytes| serde_json::from_slice(&bytes).ok())
+            .ok_or_else(invalid_policy)?;
+
+        let expiration = DateTime::parse_from_rfc3339(&document.expiration)
+            .map_err(|_err| invalid_policy())?
+            .into();
+
+        let mut ans = Self {
+            expiration,
+            conditions: Vec::new(),
+            content_length_range: None,
+        };
+        for condition in &document.conditions {
+            ans.add(condition).ok_or_else(invalid_policy)?;
+        }
+        Ok(ans)
+    }
+
+    /// Adds a condition, `None` if it is not understood
+    fn add(&mut self, condition: &Value) -> Option<()> {
+        /// parse a size
+        fn size(value: &Value) -> Option<u64> {
+            value.as_u64().or_else(|| value.as_str()?.parse().ok())
+        }
+
+        if let Some(fields) = condition.as_object() {
+            for (name, value) in fields {
+                let value = value.as_str()?.to_owned();
+                let name = name.to_ascii_lowercase();
+                self.conditions.push(Condition::Eq(name, value));
+            }
+            return Some(());
+        }
+
+        let (operator, lhs, rhs) = match *condition.as_array()?.as_slice() {
+            [ref operator, ref lhs, ref rhs] => (operator.as_str()?, lhs, rhs),
+            _ => return None,
+        };
+        let operator = operator.to_ascii_lowercase();
+        if operator == "content-length-range" {
+            let (min, max) = (size(lhs)?, size(rhs)?);
+            let (prev_min, prev_max) = self.content_length_range.unwrap_or((0, u64::MAX));
+            self.content_length_range = Some((prev_min.max(min), prev_max.min(max)));
+            return Some(());
+        }
+
+        let field = lhs.as_str()?.strip_prefix('$')?.to_ascii_lowercase();
+        let value = rhs.as_str()?.to_owned();
+        let condition = match operator.as_str() {
+            "eq" => Condition::Eq(field, value),
+            "starts-with" => Condition::StartsWith(field, value),
+            _ => return None,
+        };
+        self.conditions.push(condition);
+        Some(())
+    }
+
+    /// Gets minimum and maximum size of the file
+    pub const fn content_length_range(&self) -> Option<(u64, u64)> {
+        self.content_length_range
+    }
+
+    /// Checks the form fields of an upload to a bucket
+    pub fn check(&self, bucket: &str, fields: &[(String, String)]) -> S3Result<()> {
+        /// fields which need no condition
+        const EXEMPT_FIELDS: [&str; 5] = [
+            "policy",
+            "x-amz-signature",
+            "file",
+            "awsaccesskeyid",
+            "signature",
+        ];
+
+        if Utc::now() > self.expiration {
+            return Err(denied("Policy expired."));
+        }
+
+        for condition in &self.conditions {
+            let mut values = fields
+                .iter()
+                .filter(|&&(ref name, _)| name.eq_ignore_ascii_case(condition.field()))
+                .map(|&(_, ref value)| value.as_str())
+                .peekable();
+            let is_met = if condition.field() == "bucket" {
+                condition.accepts(bucket)
+            } else if values.peek().is_none() {
+                condition.accepts("")
+            } else {
+                values.all(|value| condition.accepts(value))
+            };
+            if !is_met {
+                return Err(denied("Policy Condition failed."));
+            }
+        }
+
+        for &(ref name, _) in fields {
+            let name = name.to_ascii_lowercase();
+            let is_covered = EXEMPT_FIELDS.contains(&name.as_str())
+                || name.starts_with("x-ignore-")
+                || self.conditions.iter().any(|c| c.field() == name);
+            if !is_covered {
+                return Err(denied("Extra input fields."));
+            }
+        }
+
+        Ok(())
+    }
+}
diff --git a/src/service.rs b/src/service.rs
index 0e61b3a..9afd038 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,6 +10,7 @@ use crate::headers::{
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
+use crate::post_policy::PostPolicy;
 use crate::signature_v4;
 use crate::storage::S3Storage;
 use crate::streams::aws_chunked_stream::AwsChunkedStream;
@@ -477,10 +478,10 @@ async fn check_post_signature(
 
     let body = take_io_body(&mut ctx.body);
 
-    let multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
+    let mut multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
         .await
         .map_err(|err| invalid_request!("Invalid multipart/form-data body", err))?;
-    {
+    let content_length_range = {
         let (policy, x_amz_algorithm, x_amz_credential, x_amz_date, x_amz_signature) = {
             match find_info(&multipart) {
                 None => return Err(invalid_request!("Missing required fields")),
@@ -501,13 +502,17 @@ async fn check_post_signature(
         }
 
         // check x_amz_credential
-        let (_, credential) = CredentialV4::parse_by_nom(x_amz_credential)
-            .map_err(|_err| invalid_request!("Invalid field: x-amz-credential"))?;
+        let credential = match CredentialV4::parse_by_nom(x_amz_credential) {
+            Ok(("", credential)) => credential,
+            Ok(_) | Err(_) => return Err(invalid_request!("Invalid field: x-amz-credential")),
+        };
 
         // check x_amz_date
         let amz_date = AmzDate::from_header_str(x_amz_date)
             .map_err(|err| invalid_request!("Invalid field: x-amz-date", err))?;
 
+        check_credential_scope(&credential, &amz_date)?;
+
         // fetch secret_key
         let secret_key = fetch_secret_key(auth_provider, credential.access_key_id).await?;
 
@@ -524,6 +529,18 @@ async fn check_post_signature(
         if signature != x_amz_signature {
             return Err(signature_mismatch!());
         }
+
+        // enforce policy
+        let bucket = match ctx.path {
+            S3Path::Bucket { bucket } | S3Path::Object { bucket, .. } => bucket,
+            S3Path::Root => "",
+        };
+        let policy = PostPolicy::parse(policy)?;
+        policy.check(bucket, &multipart.fields)?;
+        policy.content_length_range()
+    };
+    if let Some(range) = content_length_range {
+        multipart.file.stream.set_range(range);
     }
 
     // store ctx value
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index b92a298..438dd65 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -525,6 +525,12 @@ where
 
 /// the request body ended early or is not what the client announced
 fn body_error(e: io::Error) -> S3Error {
+    if e.get_ref().map_or(false, |source| source.is::<S3Error>()) {
+        if let Some(Ok(err)) = e.into_inner().map(|source| source.downcast::<S3Error>()) {
+            return *err;
+        }
+        return code_error!(IncompleteBody, "The request body can not be read.");
+    }
     code_error!(IncompleteBody, "The request body can not be read.", e)
 }
 
diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8ea04f8..2885edd 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -5,11 +5,13 @@
 
 use crate::utils::Also;
 
+use std::convert::TryInto;
 use std::fmt::{self, Debug};
 use std::future::Future;
 use std::io;
 use std::mem;
 use std::pin::Pin;
+use std::task::{Context, Poll};
 
 use futures::stream::{Stream, StreamExt};
 use hyper::body::{Buf, Bytes};
@@ -227,6 +229,12 @@ pub enum FileStreamError {
     /// Incomplete error
     #[error("FileStreamError: Incomplete")]
     Incomplete,
+    /// The file is smaller than allowed
+    #[error("FileStreamError: TooSmall")]
+    TooSmall,
+    /// The file is larger than allowed
+    #[error("FileStreamError: TooLarge")]
+    TooLarge,
     /// Format error
     #[error("FileStreamError: Format")]
     Format,
@@ -243,6 +251,10 @@ pub struct FileStream {
     /// inner stream
     inner:
         AsyncTryStream<Bytes, FileStreamError, SyncBoxFuture<'static, Result<(), FileStreamError>>>,
+    /// minimum and maximum size
+    range: (u64, u64),
+    /// current size
+    size: u64,
 }
 
 impl Debug for FileStream {
@@ -419,18 +431,39 @@ impl FileStream {
                     Box::pin(gen(y, body, crlf_pat, prev_bytes, is_last))
                 },
             ),
+            range: (0, u64::MAX),
+            size: 0,
         }
     }
+
+    /// Sets minimum and maximum size
+    pub(crate) fn set_range(&mut self, range: (u64, u64)) {
+        self.range = range;
+    }
 }
 
 impl Stream for FileStream {
     type Item = Result<Bytes, FileStreamError>;
 
-    fn poll_next(
-        mut self: Pin<&mut Self>,
-        cx: &mut std::task::Context<'_>,
-    ) -> std::task::Poll<Option<Self::Item>> {
-        Pin::new(&mut self.inner).poll_next(cx)
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        let ret = futures::ready!(Pin::new(&mut self.inner).poll_next(cx));
+        let (min, max) = self.range;
+        match ret {
+            Some(Ok(bytes)) => {
+                let len = bytes.len().try_into().unwrap_or(u64::MAX);
+                self.size = self.size.saturating_add(len);
+                if self.size > max {
+                    return Poll::Ready(Some(Err(FileStreamError::TooLarge)));
+                }
+                Poll::Ready(Some(Ok(bytes)))
+            }
+            None if self.size < min => {
+                // report it only once
+                self.range = (0, max);
+                Poll::Ready(Some(Err(FileStreamError::TooSmall)))
+            }
+            ret => Poll::Ready(ret),
+        }
     }
 }
 
diff --git a/src/utils/body.rs b/src/utils/body.rs
index 85d4ede..9cd4801 100644
--- a/src/utils/body.rs
+++ b/src/utils/body.rs
@@ -35,6 +35,14 @@ pub fn transform_file_stream(file_stream: FileStream) -> ByteStream {
                 FileStreamError::Incomplete | FileStreamError::Format => {
                     io::Error::new(io::ErrorKind::Other, format!("Error obtaining chunk: {e}"))
                 }
+                FileStreamError::TooSmall => io::Error::new(
+                    io::ErrorKind::Other,
+                    code_error!(EntityTooSmall, "The file is smaller than allowed."),
+                ),
+                FileStreamError::TooLarge => io::Error::new(
+                    io::ErrorKind::Other,
+                    code_error!(EntityTooLarge, "The file is larger than allowed."),
+                ),
                 FileStreamError::Io(e) => e,
             })
         })
-- 
2.43.0


From ff630ab03aa2c697c137b0f56f375f2e4a138742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 17/29] fix: take metadata and digest of a POST upload from its
 form, and only what can be sent back

---
 src/ops/put_object.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 32b7ef5..335c3fd 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -26,6 +26,8 @@ use crate::{async_trait, Method, Response};
 use std::collections::HashMap;
 use std::mem;
 
+use hyper::header::{HeaderName, HeaderValue};
+
 /// `PutObject` handler
 pub struct Handler;
 
@@ -72,13 +74,21 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
         if name.starts_with(meta_prefix) {
             let (_, meta_key) = name.split_at(meta_prefix.len());
             if !meta_key.is_empty() {
+                // it is going to be sent back as a header
+                let is_valid = HeaderName::from_bytes(name.as_bytes()).is_ok()
+                    && HeaderValue::from_str(value).map_or(false, |v| v.to_str().is_ok());
+                if !is_valid {
+                    return Err(invalid_request!("Invalid field: x-amz-meta"));
+                }
                 let _prev = metadata.insert(meta_key.to_owned(), mem::take(value));
             }
         }
     }
-    if !metadata.is_empty() {
-        input.metadata = Some(metadata);
-    }
+    // the headers of the request are not part of the form
+    input.metadata = Some(metadata).filter(|m| !m.is_empty());
+    input.content_md5 = multipart
+        .find_field_value("content-md5")
+        .map(ToOwned::to_owned);
     // TODO: how to handle the other fields?
 
     let file_stream = multipart.file.stream;
-- 
2.43.0


From 8b52c9f37a29b0835bb2c322d9371e17a28936d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 18/29] fix: a directory which cannot be examined is not a
 conflicting key

---
 src/storages/fs.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 438dd65..f45f1cc 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -646,10 +646,21 @@ fn prune_empty_dirs(path: &Path) -> io::Result<bool> {
 
 /// create the directories of an object
 fn create_dirs(path: &Path) -> S3Result<()> {
-    fs::create_dir_all(path).map_err(|err| match err.kind() {
-        io::ErrorKind::AlreadyExists | io::ErrorKind::NotADirectory => key_conflict(),
-        _ => internal_error!(err),
-    })
+    let err = match fs::create_dir_all(path) {
+        Ok(()) => return Ok(()),
+        Err(err) => err,
+    };
+    match err.kind() {
+        io::ErrorKind::NotADirectory => Err(key_conflict()),
+        // the error does not tell a file from a directory which could not be examined
+        io::ErrorKind::AlreadyExists => match fs::metadata(path) {
+            Ok(metadata) if metadata.is_dir() => Ok(()),
+            Ok(_) => Err(key_conflict()),
+            Err(e) if is_absent(&e) => Err(key_conflict()),
+            Err(e) => Err(internal_error!(e)),
+        },
+        _ => Err(internal_error!(err)),
+    }
 }
 
 /// the key of an object is a directory of another object, or the other way around
-- 
2.43.0


From 44943b57325c3cea1aba04d48bbe943f5c3bd958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 19/29] fix: refuse the multipart uploads of a deleted bucket

Removing them may have failed when the bucket was deleted.
---
 src/storages/fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f45f1cc..1106501 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -345,6 +345,8 @@ impl FileSystem {
         if !is_valid {
             return Err(no_such_upload());
         }
+        // the uploads of a deleted bucket may be left if removing them failed
+        self.check_bucket(bucket)?;
         let content = match fs::read(self.get_upload_path(bucket, upload_id)) {
             Ok(content) => content,
             Err(e) if is_absent(&e) => return Err(no_such_upload()),
-- 
2.43.0


From c214b5a0e810e5c14e3a5fa865e029915be20c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 20/29] fix: keep the whitespace at the ends of keys in a batch
 deletion

quick_xml trims the text it deserializes, so that a batch deletion of
"k " deleted "k".
---
 src/ops/delete_objects.rs | 46 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/ops/delete_objects.rs b/src/ops/delete_objects.rs
index 1e7411c..6293e15 100644
--- a/src/ops/delete_objects.rs
+++ b/src/ops/delete_objects.rs
@@ -11,9 +11,10 @@ use crate::headers::{
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
-use crate::utils::body::deserialize_xml_body;
 use crate::utils::{ResponseExt, XmlWriterExt};
-use crate::{async_trait, Method, Response};
+use crate::{async_trait, BoxStdError, Method, Response};
+
+use quick_xml::events::{BytesText, Event};
 
 /// `DeleteObject` handler
 pub struct Handler;
@@ -41,9 +42,12 @@ impl S3Handler for Handler {
 /// extract operation request
 pub async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectsRequest> {
     let bucket = ctx.unwrap_bucket_path();
-    let delete: self::xml::Delete = deserialize_xml_body(ctx.take_body())
+    let body = hyper::body::to_bytes(ctx.take_body())
         .await
         .map_err(|err| invalid_request!("Invalid xml format", err))?;
+    let delete: self::xml::Delete = escape_key_spaces(&body)
+        .and_then(|xml| Ok(quick_xml::de::from_reader(xml.as_slice())?))
+        .map_err(|err| invalid_request!("Invalid xml format", err))?;
 
     let mut input: DeleteObjectsRequest = DeleteObjectsRequest {
         delete: delete.into(),
@@ -63,6 +67,42 @@ pub async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectsRequest>
     Ok(input)
 }
 
+/// Escape the whitespace at the ends of the keys.
+///
+/// It belongs to the keys, but `quick_xml::de` trims whatever is not escaped.
+fn escape_key_spaces(xml: &[u8]) -> Result<Vec<u8>, BoxStdError> {
+    let mut reader = quick_xml::Reader::from_reader(xml);
+    let mut writer = quick_xml::Writer::new(Vec::with_capacity(xml.len()));
+    let mut in_key = false;
+    loop {
+        let event = reader.read_event()?;
+        match event {
+            Event::Eof => return Ok(writer.into_inner()),
+            Event::Start(ref e) => in_key = e.local_name().as_ref() == b"Key",
+            Event::End(_) => in_key = false,
+            Event::Text(ref text) if in_key => {
+                let text = std::str::from_utf8(text)?;
+                let is_inner = |c: char| !c.is_whitespace();
+                let inner = text.find(is_inner)..=text.rfind(is_inner);
+                let escaped = text
+                    .char_indices()
+                    .map(|(i, c)| {
+                        if inner.contains(&Some(i)) {
+                            c.to_string()
+                        } else {
+                            format!("&#{};", u32::from(c))
+                        }
+                    })
+                    .collect::<String>();
+                writer.write_event(Event::Text(BytesText::from_escaped(escaped)))?;
+                continue;
+            }
+            _ => {}
+        }
+        writer.write_event(event)?;
+    }
+}
+
 impl S3Output for DeleteObjectsOutput {
     #[allow(clippy::shadow_unrelated)]
     fn try_into_response(self) -> S3Result<Response> {
-- 
2.43.0


From e6ac17acb19a4975fd70ce5847b9c27c8c31e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 21/29] fix: keep every key readable in XML responses

A carriage return is written as a character reference, characters which
cannot be part of an XML document are replaced, and keys made of such
characters are refused because they could not be listed.
---
 src/storages/fs.rs |  8 ++++++--
 src/utils.rs       |  2 +-
 src/utils/xml.rs   | 22 ++++++++++++++++++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1106501..ae8efdf 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -21,7 +21,7 @@ use crate::errors::{S3Error, S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
-use crate::utils::{crypto, time, Apply};
+use crate::utils::{crypto, time, xml::is_xml_char, Apply};
 
 use std::collections::{HashMap, VecDeque};
 use std::convert::TryInto;
@@ -229,8 +229,12 @@ impl FileSystem {
     ///
     /// Every key is mapped to a path of its own, a key for which there is none is refused.
     fn get_object_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        if !key.chars().all(is_xml_char) {
+            // it could not be listed
+            return Err(invalid_request!("The key is not supported."));
+        }
         for segment in key.split('/') {
-            if matches!(segment, "" | "." | "..") || segment.contains('\0') {
+            if matches!(segment, "" | "." | "..") {
                 return Err(invalid_request!("The key is not supported."));
             }
             if segment.len() > 255 {
diff --git a/src/utils.rs b/src/utils.rs
index c491771..bb4cc16 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,7 +3,6 @@
 mod also;
 mod apply;
 mod response;
-mod xml;
 
 pub use self::also::Also;
 pub use self::apply::Apply;
@@ -13,3 +12,4 @@ pub use self::xml::XmlWriterExt;
 pub mod body;
 pub mod crypto;
 pub mod time;
+pub mod xml;
diff --git a/src/utils/xml.rs b/src/utils/xml.rs
index 671d117..5e09283 100644
--- a/src/utils/xml.rs
+++ b/src/utils/xml.rs
@@ -31,6 +31,24 @@ pub trait XmlWriterExt {
     ) -> Result<()>;
 }
 
+/// can the character be part of an xml document
+pub const fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
+}
+
+/// write characters such that they are read back as they are
+fn write_characters<W: io::Write>(w: &mut EventWriter<W>, data: &str) -> Result<()> {
+    let data = data.replace(|c| !is_xml_char(c), "\u{fffd}");
+    for (i, s) in data.split('\r').enumerate() {
+        if i > 0 {
+            // a literal one is read as a line feed
+            w.inner_mut().write_all(b"&#xD;")?;
+        }
+        w.write(XmlEvent::characters(s))?;
+    }
+    Ok(())
+}
+
 impl<W: io::Write> XmlWriterExt for EventWriter<W> {
     fn stack(&mut self, name: &str, f: impl FnOnce(&mut Self) -> Result<()>) -> Result<()> {
         self.write(XmlEvent::start_element(name))?;
@@ -54,14 +72,14 @@ impl<W: io::Write> XmlWriterExt for EventWriter<W> {
 
     fn element(&mut self, name: &str, data: &str) -> Result<()> {
         self.write(XmlEvent::start_element(name))?;
-        self.write(XmlEvent::characters(data))?;
+        write_characters(self, data)?;
         self.write(XmlEvent::end_element())
     }
 
     fn opt_element(&mut self, name: &str, data: Option<impl Deref<Target = str>>) -> Result<()> {
         if let Some(data) = data {
             self.write(XmlEvent::start_element(name))?;
-            self.write(XmlEvent::characters(&data))?;
+            write_characters(self, &data)?;
             self.write(XmlEvent::end_element())?;
         }
         Ok(())
-- 
2.43.0


From 94de74cc61deeb2c8c6e503652629ebc050b80fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 22/29] fix: honour encoding-type in listings

---
 src/storages/fs.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ae8efdf..47569e6 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -674,6 +674,22 @@ fn key_conflict() -> S3Error {
     invalid_request!("The key conflicts with the key of an existing object.")
 }
 
+/// encode a string of a listing if the client asked for it
+fn encode_if(is_encoded: bool, s: &str) -> String {
+    if is_encoded {
+        urlencoding::encode(s).into_owned()
+    } else {
+        s.to_owned()
+    }
+}
+
+/// encode the keys of a listing
+fn encode_keys(objects: &mut [Object]) {
+    for object in objects {
+        object.key = object.key.take().map(|key| encode_if(true, &key));
+    }
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -1098,12 +1114,16 @@ impl S3Storage for FileSystem {
             let rhs_key = rhs.key.as_deref().unwrap_or("");
             lhs_key.cmp(rhs_key)
         });
+        let is_encoded = input.encoding_type.as_deref() == Some("url");
+        if is_encoded {
+            encode_keys(&mut objects);
+        }
 
         // TODO: handle other fields
         let output = ListObjectsOutput {
             contents: Some(objects),
-            delimiter: input.delimiter,
-            encoding_type: input.encoding_type,
+            delimiter: input.delimiter.map(|s| encode_if(is_encoded, &s)),
+            encoding_type: input.encoding_type.filter(|_| is_encoded),
             name: Some(input.bucket),
             common_prefixes: None,
             is_truncated: None,
@@ -1176,13 +1196,17 @@ impl S3Storage for FileSystem {
             let rhs_key = rhs.key.as_deref().unwrap_or("");
             lhs_key.cmp(rhs_key)
         });
+        let is_encoded = input.encoding_type.as_deref() == Some("url");
+        if is_encoded {
+            encode_keys(&mut objects);
+        }
 
         // TODO: handle other fields
         let output = ListObjectsV2Output {
             key_count: Some(trace_try!(objects.len().try_into())),
             contents: Some(objects),
-            delimiter: input.delimiter,
-            encoding_type: input.encoding_type,
+            delimiter: input.delimiter.map(|s| encode_if(is_encoded, &s)),
+            encoding_type: input.encoding_type.filter(|_| is_encoded),
             name: Some(input.bucket),
             common_prefixes: None,
             is_truncated: None,
-- 
2.43.0


From 641628c123eec831a87c4e8b60bacb8a1338b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 23/29] fix: check Content-MD5 of directory objects

---
 src/storages/fs.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 47569e6..83eafae 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -1252,6 +1252,7 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
+                check_content_md5(content_md5.as_deref(), &Md5::digest(b""))?;
                 let object_path = self.get_dir_path(&bucket, &key)?;
                 let _guard = self.lock();
                 self.check_bucket(&bucket)?;
-- 
2.43.0


From 040a709b3e6731c61db28345a03f11e0ef068460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 24/29] fix: read the body of directory objects

---
 src/storages/fs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 83eafae..9e0759b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -1252,6 +1252,9 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
+                // an empty body may be invalid all the same
+                let stream = body.map_err(body_error);
+                let _size = copy_bytes(stream, &mut futures::io::sink()).await?;
                 check_content_md5(content_md5.as_deref(), &Md5::digest(b""))?;
                 let object_path = self.get_dir_path(&bucket, &key)?;
                 let _guard = self.lock();
-- 
2.43.0


From 082331177cc9b4c30d20e515a467507ac6cb4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 25/29] fix: report the time of the copy in copy results

---
 src/storages/fs.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 9e0759b..be7070e 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -159,7 +159,7 @@ impl FileSystem {
         ))
     }
 
-    /// move a complete file to the place of an object
+    /// move a complete file to the place of an object, returns its modification time
     ///
     /// The caller holds the lock.
     fn commit_object(
@@ -169,7 +169,7 @@ impl FileSystem {
         bucket: &str,
         key: &str,
         metadata: Option<&HashMap<String, String>>,
-    ) -> S3Result<()> {
+    ) -> S3Result<SystemTime> {
         self.check_bucket(bucket)?;
         let object_path = self.get_object_path(bucket, key)?;
 
@@ -214,6 +214,7 @@ impl FileSystem {
             trace_try!(self.save_metadata(bucket, key, &MetadataFile { versions }));
         }
 
+        let time = trace_try!(temp_metadata.modified());
         trace_try!(fs::rename(&temp.path, &object_path));
 
         if !has_metadata {
@@ -222,7 +223,7 @@ impl FileSystem {
                 debug!(%err, "remove stale metadata");
             }
         }
-        Ok(())
+        Ok(time)
     }
 
     /// resolve object path under the virtual root
@@ -746,8 +747,7 @@ impl S3Storage for FileSystem {
         self.check_bucket(&input.bucket)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
-        let (src_file, file_metadata, src_metadata) = self.open_object(bucket, key)?;
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+        let (src_file, _, src_metadata) = self.open_object(bucket, key)?;
 
         let mut md5_hash = Md5::new();
         let stream = BytesStream::new(src_file, 65536, None)
@@ -780,7 +780,9 @@ impl S3Storage for FileSystem {
         } else {
             src_metadata.as_ref()
         };
-        self.commit_object(&self.lock(), &temp, &input.bucket, &input.key, dst_metadata)?;
+        let time =
+            self.commit_object(&self.lock(), &temp, &input.bucket, &input.key, dst_metadata)?;
+        let last_modified = time::to_rfc3339(time);
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -1296,7 +1298,7 @@ impl S3Storage for FileSystem {
         );
 
         drop(writer);
-        self.commit_object(&self.lock(), &temp, &bucket, &key, metadata.as_ref())?;
+        let _ = self.commit_object(&self.lock(), &temp, &bucket, &key, metadata.as_ref())?;
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 1f985599f8cbb97ba203bcfb3d425d29ba067d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 26/29] fix: list buckets on file systems without times of
 creation

---
 src/storages/fs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index be7070e..7c77b9c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -1040,7 +1040,9 @@ impl S3Storage for FileSystem {
                         Err(ref e) if is_absent(e) => continue,
                         ret => trace_try!(ret),
                     };
-                    let creation_date = trace_try!(file_meta.created());
+                    // not every file system stores the time of creation
+                    let creation_date =
+                        trace_try!(file_meta.created().or_else(|_| file_meta.modified()));
                     buckets.push(Bucket {
                         creation_date: Some(time::to_rfc3339(creation_date)),
                         name: Some(name.into()),
-- 
2.43.0


From 83562260b930121e0c6e260bc24c06f3c7ade24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 27/29] fix: combine the values of a repeated metadata header

---
 src/data_structures/ordered_headers.rs | 14 ++++++++++++--
 src/ops/put_object.rs                  | 14 +-------------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 2e35681..c30bba1 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -2,7 +2,7 @@
 
 use crate::Request;
 
-use std::collections::HashMap;
+use std::collections::hash_map::{Entry, HashMap};
 use std::str::FromStr;
 
 use hyper::header::{AsHeaderName, ToStrError};
@@ -86,7 +86,17 @@ impl<'a> OrderedHeaders<'a> {
         for &(name, value) in self.headers.iter() {
             if let Some(meta_key) = name.strip_prefix("x-amz-meta-") {
                 if !meta_key.is_empty() {
-                    let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+                    match metadata.entry(meta_key.to_owned()) {
+                        Entry::Vacant(entry) => {
+                            let _value = entry.insert(value.to_owned());
+                        }
+                        Entry::Occupied(mut entry) => {
+                            // the values of a repeated header are one list
+                            let list = entry.get_mut();
+                            list.push(',');
+                            list.push_str(value);
+                        }
+                    }
                 }
             }
         }
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 335c3fd..649d48d 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -189,19 +189,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         &mut input.object_lock_legal_hold_status,
     );
 
-    let mut metadata: HashMap<String, String> = HashMap::new();
-    for &(name, value) in ctx.headers.as_ref() {
-        let meta_prefix = "x-amz-meta-";
-        if name.starts_with(meta_prefix) {
-            let (_, meta_key) = name.split_at(meta_prefix.len());
-            if !meta_key.is_empty() {
-                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
-            }
-        }
-    }
-    if !metadata.is_empty() {
-        input.metadata = Some(metadata);
-    }
+    input.metadata = ctx.headers.metadata();
 
     match ctx.multipart.take() {
         None => input.body = ctx.take_body().apply(transform_body_stream).apply(Some),
-- 
2.43.0


From df7de49ee32001cfd29e702417db4b54fc09273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 28/29] fix: load an upload under the lock, a completion being
 rolled back hid it

---
 src/storages/fs.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 7c77b9c..3995ec2 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -343,7 +343,15 @@ impl FileSystem {
     }
 
     /// load a multipart upload in progress
-    fn load_upload(&self, bucket: &str, key: &str, upload_id: &str) -> S3Result<UploadFile> {
+    ///
+    /// The lock is needed: a completion that fails is rolled back in several steps.
+    fn load_upload(
+        &self,
+        _guard: &MutexGuard<'_, ()>,
+        bucket: &str,
+        key: &str,
+        upload_id: &str,
+    ) -> S3Result<UploadFile> {
         let no_such_upload = || code_error!(NoSuchUpload, "The specified upload does not exist.");
 
         let is_valid = Uuid::parse_str(upload_id).map_or(false, |id| id.to_string() == upload_id);
@@ -1365,7 +1373,7 @@ impl S3Storage for FileSystem {
             );
             return Err(err.into());
         }
-        let _ = self.load_upload(&bucket, &key, &upload_id)?;
+        let _ = self.load_upload(&self.lock(), &bucket, &key, &upload_id)?;
         let file_path = self.get_part_path(&upload_id, part_number);
 
         let mut md5_hash = Md5::new();
@@ -1392,8 +1400,8 @@ impl S3Storage for FileSystem {
 
         drop(writer);
         {
-            let _guard = self.lock();
-            let _ = self.load_upload(&bucket, &key, &upload_id)?;
+            let guard = self.lock();
+            let _ = self.load_upload(&guard, &bucket, &key, &upload_id)?;
             trace_try!(replace_part(&temp, &file_path));
         }
 
@@ -1428,7 +1436,7 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        let _ = self.load_upload(&bucket, &key, &upload_id)?;
+        let _ = self.load_upload(&self.lock(), &bucket, &key, &upload_id)?;
         let parts = multipart_upload.parts.unwrap_or_default();
         if parts.is_empty() {
             let err = code_error!(MalformedXML, "You must specify at least one part");
@@ -1495,7 +1503,7 @@ impl S3Storage for FileSystem {
             drop(writer);
 
             let guard = self.lock();
-            let mut upload = self.load_upload(&bucket, &key, &upload_id)?;
+            let mut upload = self.load_upload(&guard, &bucket, &key, &upload_id)?;
             for &(ref part_path, ref tag) in &part_tags {
                 match fs::metadata(part_path) {
                     Ok(m) if trace_try!(version_tag(&m)) == *tag => {}
-- 
2.43.0


From bc8604795e3538c4a770c5935dfdf6c3388e8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 29/29] fix: stream a payload which is not signed as a whole

---
 src/service.rs | 61 +++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 9afd038..0d728d8 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -668,41 +668,36 @@ async fn check_header_auth(
             .headers
             .map_signed_headers(&authorization.signed_headers);
 
-        let canonical_request = if is_stream {
-            signature_v4::create_canonical_request(
-                method,
-                uri_path,
-                query_strings,
-                &headers,
-                signature_v4::Payload::MultipleChunks,
-            )
-        } else {
-            let bytes = std::mem::take(&mut ctx.body)
-                .apply(hyper::body::to_bytes)
-                .await
-                .map_err(|err| invalid_request!("Can not obtain the whole request body.", err))?;
-
-            let payload = if matches!(amz_content_sha256, AmzContentSha256::UnsignedPayload) {
-                signature_v4::Payload::Unsigned
-            } else if bytes.is_empty() {
-                signature_v4::Payload::Empty
-            } else {
-                signature_v4::Payload::SingleChunk(&bytes)
-            };
-
-            let ans = signature_v4::create_canonical_request(
-                method,
-                uri_path,
-                query_strings,
-                &headers,
-                payload,
-            );
-
-            ctx.body = Body::from(bytes);
-
-            ans
+        // a body which is not signed as a whole is left to be streamed
+        let bytes = match amz_content_sha256 {
+            AmzContentSha256::UnsignedPayload | AmzContentSha256::MultipleChunks => None,
+            AmzContentSha256::SingleChunk { .. } => {
+                let bytes = std::mem::take(&mut ctx.body)
+                    .apply(hyper::body::to_bytes)
+                    .await
+                    .map_err(|err| {
+                        invalid_request!("Can not obtain the whole request body.", err)
+                    })?;
+                ctx.body = Body::from(bytes.clone());
+                Some(bytes)
+            }
+        };
+
+        let payload = match bytes {
+            None if is_stream => signature_v4::Payload::MultipleChunks,
+            None => signature_v4::Payload::Unsigned,
+            Some(ref bytes) if bytes.is_empty() => signature_v4::Payload::Empty,
+            Some(ref bytes) => signature_v4::Payload::SingleChunk(bytes),
         };
 
+        let canonical_request = signature_v4::create_canonical_request(
+            method,
+            uri_path,
+            query_strings,
+            &headers,
+            payload,
+        );
+
         let region = authorization.credential.aws_region;
         let string_to_sign =
             signature_v4::create_string_to_sign(&canonical_request, &amz_date, region);
-- 
2.43.0

