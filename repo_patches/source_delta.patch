From 79cee6bb9296eb90328bdb053a5d79a57a30984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 01/50] fix: Treat mapping prefixes as literal text, not
 patterns

---
 resync/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..a97e1be 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -178,7 +178,7 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
+        m = re.match(re.escape(self.dst_path) + r"(/.*)?\Z", dst_file, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
@@ -195,7 +195,7 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
+        m = re.match(re.escape(self.src_uri) + r"(/.*)?\Z", src_uri, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
-- 
2.43.0


From 46f5e468eef320524930246ee9ed4d29485bdd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 02/50] fix: Strip every trailing slash from mapping prefixes

---
 resync/mapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index a97e1be..243be58 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -162,10 +162,7 @@ class Map:
 
     def strip_trailing_slashes(self, path):
         """Return input path minus any trailing slashes."""
-        m = re.match(r"(.*)/+$", path)
-        if (m is None):
-            return(path)
-        return(m.group(1))
+        return(path.rstrip('/'))
 
     def dst_to_src(self, dst_file):
         """Return the src URI from the dst filepath.
-- 
2.43.0


From 856db2d3463314c8a399e04772bd7ffb3a346a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 03/50] fix: Refuse duplicate mappings that differ in trailing
 slashes only

---
 resync/mapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 243be58..1136832 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -62,19 +62,20 @@ class Mapper():
                         "Bad mapping argument (%s), got %s" %
                         (mapping, str(entry)))
                 (src_uri, dst_path) = entry
+                new_map = Map(src_uri, dst_path)
                 # Check for dupes
                 for map in self.mappings:
-                    if (src_uri == map.src_uri):
+                    if (new_map.src_uri == map.src_uri):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "source URI %s (with destination path %s)" %
                             (src_uri, dst_path))
-                    if (dst_path == map.dst_path):
+                    if (new_map.dst_path == map.dst_path):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "destination path %s (with source URI %s)" %
                             (dst_path, src_uri))
-                self.mappings.append(Map(src_uri, dst_path))
+                self.mappings.append(new_map)
 
     def default_src_uri(self):
         """Default src_uri from mapping.
-- 
2.43.0


From c2c255bd796d8b03be2cb0c1710b80c80fcdfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 04/50] fix: Compare strict authority paths on component
 boundaries

---
 resync/url_authority.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..e3c4ace 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -68,6 +68,6 @@ class UrlAuthority(object):
             # b.example.org
         path = os.path.dirname(s.path)
         if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
+                and not (path + '/').startswith(self.master_path.rstrip('/') + '/')):
             return(False)
         return(True)
-- 
2.43.0


From 8ba791d54ec458eea281ac9ce11c386318bd903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 05/50] fix: Detect overlap of file: URI, relative and root
 mappings

---
 resync/mapper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 1136832..b85aeb9 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -208,10 +208,13 @@ class Map:
         destination are the same, or if one is a component of the other path.
         """
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
-        if (scheme != ''):
+        if (scheme == ''):
+            path = self.src_uri
+        elif (scheme != 'file'):
             return(False)
-        s = os.path.normpath(self.src_uri)
-        d = os.path.normpath(self.dst_path)
+        # Empty path here means the root as trailing slashes have been removed
+        s = os.path.abspath(path or '/')
+        d = os.path.abspath(self.dst_path or '/')
         lcp = os.path.commonprefix([s, d])
         return(s == lcp or d == lcp)
 
-- 
2.43.0


From 2c23f27f713bbb1690161ef7f79538e144aec7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 06/50] fix: Do not report sibling paths with a common name
 prefix as unsafe

---
 resync/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index b85aeb9..f553afd 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -215,7 +215,7 @@ class Map:
         # Empty path here means the root as trailing slashes have been removed
         s = os.path.abspath(path or '/')
         d = os.path.abspath(self.dst_path or '/')
-        lcp = os.path.commonprefix([s, d])
+        lcp = os.path.commonpath([s, d])
         return(s == lcp or d == lcp)
 
     def __repr__(self):
-- 
2.43.0


From fba8828a388573c383fbcb8e65364509c4a2b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 07/50] fix: Create no directories in dry run mode

---
 resync/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..4c4eb4f 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -495,7 +495,8 @@ class Client(object):
         Returns the number of resources updated/created (0 or 1)
         """
         path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
+        if (not self.dryrun):
+            distutils.dir_util.mkpath(path)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
-- 
2.43.0


From 83110aa1afafd3bcf57396e0f4edc1fa8bea05b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 08/50] fix: Do not store the last timestamp in dry run mode

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 4c4eb4f..14e05be 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -316,7 +316,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -469,7 +469,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
-- 
2.43.0


From f04fb9a956143ad7ce208ffaad937a01912bd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 09/50] fix: Ignore times of destination only files in stored
 timestamp

---
 resync/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 14e05be..a9d9c85 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -310,11 +310,14 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             self.logger.info("updated: %s -> %s" % (uri, filename))
             num_updated += self.update_resource(resource, filename, 'updated')
+        src_timestamp = self.last_timestamp
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
+        # Times of files deleted are those of the destination, not the source
+        self.last_timestamp = src_timestamp
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From c3a25fdbc60d3b5a6823b8ba0f51430003006bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 10/50] fix: Check authority of an explicitly given change
 list, and strictly if asked

---
 resync/client.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index a9d9c85..29aa20e 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -401,13 +401,13 @@ class Client(object):
         if (not self.noauth):
             uauth_cs = UrlAuthority(change_list, self.strictauth)
             if (not change_list_uri):
-                uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+                uauth_sm = UrlAuthority(self.sitemap, self.strictauth)
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From 776da8534892a6bd1a5d2c72bdf9cedf04887815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 11/50] fix: Count only successful downloads in incremental
 sync

---
 resync/client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 29aa20e..e8c11f3 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -457,12 +457,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
-- 
2.43.0


From 7b7e69d7f2c5165a019c32bbe8a41ccbcf7a63bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 12/50] fix: Refuse URIs that map to paths outside the
 destination

---
 resync/mapper.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resync/mapper.py b/resync/mapper.py
index f553afd..48d4b51 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -199,6 +199,16 @@ class Map:
         rel_path = m.group(1)
         if rel_path is None:
             rel_path = '/'
+        depth = 0
+        for component in rel_path.split('/'):
+            if component == '..':
+                depth -= 1
+            elif component not in ('', '.'):
+                depth += 1
+            if depth < 0:
+                raise MapperError(
+                    "Refusing to translate source URI (%s) to a path "
+                    "outside the destination." % (src_uri))
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From c52c897d8cf94758fcbbb58dca8db60a8cee5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 13/50] fix: Provide hashes() for change lists also

---
 resync/list_base.py     | 13 +++++++++++++
 resync/resource_list.py | 13 -------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/resync/list_base.py b/resync/list_base.py
index daac991..cdefd06 100644
--- a/resync/list_base.py
+++ b/resync/list_base.py
@@ -147,6 +147,19 @@ class ListBase(ResourceContainer):
 
     # UTILITY
 
+    def hashes(self):
+        """Return set of hashes uses in this list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
+
     def new_sitemap(self):
         """Create new Sitemap object with default settings."""
         return Sitemap(pretty_xml=self.pretty_xml,
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..3ecb0ac 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -211,16 +211,3 @@ class ResourceList(ListBaseWithIndex):
             src_cur = next(src_iter, None)
         # have now gone through both lists
         return(same, updated, deleted, created)
-
-    def hashes(self):
-        """Return set of hashes uses in this resource_list."""
-        hashes = set()
-        if (self.resources is not None):
-            for resource in self:
-                if (resource.md5 is not None):
-                    hashes.add('md5')
-                if (resource.sha1 is not None):
-                    hashes.add('sha-1')
-                if (resource.sha256 is not None):
-                    hashes.add('sha-256')
-        return(hashes)
-- 
2.43.0


From 4010f5e9964b8f8afb77aee8630b9a263e6206fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 14/50] fix: Stop using only the hash types the source does not
 give

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index e8c11f3..0a0a41e 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -793,8 +793,8 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in list(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
         self.logger.info("Not calculating %s hash(es) on destination as not present "
-- 
2.43.0


From a490132d57758700c37dc8f5791ea627629a9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 15/50] fix: Support --checksum without --hash

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..ff43b43 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,7 +212,7 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
-        args.hash.append('md5')
+        args.hash = (args.hash or []) + ['md5']
     if include_remote:
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
-- 
2.43.0


From b26965757ee315aea4c282edae8f1466d563a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 16/50] fix: Resources with the same timestamp are equal with
 zero tolerance

---
 resync/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/resource.py b/resync/resource.py
index 48c224b..85bf637 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -458,7 +458,8 @@ class Resource(object):
             # not equal if only one timestamp specified
             if (self.timestamp is None
                     or other.timestamp is None
-                    or abs(self.timestamp - other.timestamp) >= delta):
+                    or (self.timestamp != other.timestamp
+                        and abs(self.timestamp - other.timestamp) >= delta)):
                 return False
         if ((self.md5 is not None and other.md5 is not None)
                 and self.md5 != other.md5):
-- 
2.43.0


From ab1d4a142022bce1456f969f7c679a39b760bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 17/50] fix: Delete resources created and deleted since last
 sync if present

---
 resync/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 0a0a41e..26f6413 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -415,7 +415,15 @@ class Client(object):
             self.logger.info(
                 "Skipped %d changes before %s" %
                 (num_skipped, datetime_to_str(from_timestamp)))
+        last_changes = dict((resource.uri, resource) for resource in src_change_list)
         num_dupes = src_change_list.prune_dupes()
+        # Creation and deletion cancel out, unless there is a local copy from
+        # an earlier sync still to be deleted
+        kept = set(src_change_list.uris())
+        for uri, resource in last_changes.items():
+            if (uri not in kept and os.path.isfile(self.mapper.src_to_dst(uri))):
+                src_change_list.add(resource)
+                num_dupes -= 1
         if (num_dupes > 0):
             self.logger.info("Removed %d prior changes" % (num_dupes))
         # Review and log status before
-- 
2.43.0


From be7102eb7489dbca51e3bdcf65b6d26bfd7b4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 18/50] fix: Open local paths with URL special characters
 literally

---
 resync/url_or_file_open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 4981fa4..ab03d5c 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -2,7 +2,7 @@
 
 import re
 import time
-from urllib.request import Request, urlopen
+from urllib.request import Request, pathname2url, urlopen
 
 from . import __version__
 
@@ -31,7 +31,7 @@ def url_or_file_open(uri, method=None, timeout=None):
     no timeout is specified then the global default will be used.
     """
     if (not re.match(r'''\w+:''', uri)):
-        uri = 'file:' + uri
+        uri = 'file:' + pathname2url(uri)
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From a601fd18387b3e2749e4f8babab9e4341379bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 19/50] fix: Raise socket.timeout for time-outs while
 connecting also

---
 resync/url_or_file_open.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index ab03d5c..f9e971b 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -1,7 +1,9 @@
 """Local version of urlopen that supports local files & web URLs, plus adds auth."""
 
 import re
+import socket
 import time
+from urllib.error import URLError
 from urllib.request import Request, pathname2url, urlopen
 
 from . import __version__
@@ -46,4 +48,10 @@ def url_or_file_open(uri, method=None, timeout=None):
         time.sleep(CONFIG['delay'])
     NUM_REQUESTS += 1
     maybe_timeout = {} if timeout is None else {'timeout': timeout}
-    return urlopen(Request(url=uri, headers=headers, method=method), **maybe_timeout)
+    try:
+        return urlopen(Request(url=uri, headers=headers, method=method), **maybe_timeout)
+    except URLError as e:
+        # time-outs while connecting are wrapped
+        if isinstance(e.reason, socket.timeout):
+            raise e.reason
+        raise
-- 
2.43.0


From 54ee8e7d23f83427844c2610466fbab41ddc34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 20/50] fix: Reject non-ASCII digits and trailing newlines in
 datetimes

---
 resync/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/w3c_datetime.py b/resync/w3c_datetime.py
index e5544d5..6ea02cf 100644
--- a/resync/w3c_datetime.py
+++ b/resync/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context='datetime'):
     if (s == ''):
         raise ValueError('Attempt to set empty %s' % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?\Z", s, re.ASCII)
     if (m is not None):
         if (m.group(1) is None):
             s += '-01-01'
@@ -86,7 +86,7 @@ def str_to_datetime(s, context='datetime'):
             s += '-01'
         s += 'T00:00:00Z'
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?\Z", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if (m is not None):
@@ -102,7 +102,7 @@ def str_to_datetime(s, context='datetime'):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))$", s)
+                 r"(\d\d):(\d\d))\Z", s, re.ASCII)
     if (m is None):
         raise ValueError("Bad datetime format (%s)" % s)
     str = m.group(1) + 'Z'
-- 
2.43.0


From 6a22eee5b7f41e02a9c69e79f4a1771764e3e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 21/50] fix: Iterate over sets of resources independently

---
 resync/capability_list.py | 15 ++++-----------
 resync/resource_list.py   |  9 +--------
 resync/resource_set.py    | 10 +---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..2e7b8de 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        uris_in_order = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    uris_in_order.append(uri)
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
         for cap in uris:
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                uris_in_order.append(uri)
+        return(iter([self[uri] for uri in uris_in_order]))
 
 
 class CapabilityList(ListBase):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 3ecb0ac..3a57006 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From d388f854e8ba394d6804aae70edd8efea16dcf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 22/50] fix: Read at, completed, from and until times of
 resources also

---
 resync/sitemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..a795ab8 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -339,7 +339,8 @@ class Sitemap(object):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
             # simple attributes that map directly to Resource object attributes
-            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type'):
+            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
+                        'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
                     setattr(resource, att, md[att])
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
-- 
2.43.0


From 58ad9f8712272b76e1de35b2e1bdf77e54dcfd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 23/50] fix: Honor a limit of one entry per sitemap, and no
 limit, when writing

---
 resync/list_base_with_index.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..eccbb17 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -377,10 +377,12 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
-                break
+        limit = self.max_sitemap_entries
+        if (first is None or limit is None or len(chunk) < limit):
+            for r in resource_iter:
+                chunk.add(r)
+                if (limit is not None and len(chunk) >= limit):
+                    break
         # Get next to see whether there are more resources
         try:
             nxt = next(resource_iter)
-- 
2.43.0


From 93ac3109a622b3843c800f145386d0a393459de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 24/50] fix: Refuse part number just after the last component
 sitemap

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index eccbb17..6cbd0df 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -259,7 +259,7 @@ class ListBaseWithIndex(ListBase):
                 (len(self), str(
                     self.max_sitemap_entries)))
         start = part_number * self.max_sitemap_entries
-        if (start > len(self)):
+        if (start >= len(self)):
             raise ListBaseIndexError(
                 "Request for component sitemap with part_number too high, would start at entry %d yet the list has only %d entries" %
                 (start, len(self)))
-- 
2.43.0


From ce73e060e8d7ab3d63958db399975421ff9c1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 25/50] fix: Read indexes of lists other than resource lists
 also

---
 resync/list_base_with_index.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 6cbd0df..7f3cf31 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -16,7 +16,7 @@ from .hashes import Hashes
 from .list_base import ListBase
 from .mapper import Mapper, MapperError
 from .resource import Resource
-from .sitemap import Sitemap
+from .sitemap import Sitemap, SitemapIndexError
 from .url_authority import UrlAuthority
 from .url_or_file_open import url_or_file_open
 
@@ -107,7 +107,15 @@ class ListBaseWithIndex(ListBase):
             pass
         self.logger.info("Read sitemap/sitemapindex from %s" % (uri))
         s = self.new_sitemap()
-        s.parse_xml(fh=fh, resources=self, capability=self.capability_name)
+        index = ListBase()
+        try:
+            s.parse_xml(fh=fh, resources=self, capability=self.capability_name,
+                        sitemapindex=False)
+        except SitemapIndexError as e:
+            # entries are not resources of this list so self.add(..) doesn't apply
+            s.parse_xml(etree=e.etree, resources=index, capability=self.capability_name)
+            self.md = index.md or self.md
+            self.ln.extend(index.ln)
         # what did we read? sitemap or sitemapindex?
         if (s.parsed_index):
             # sitemapindex
@@ -118,18 +126,21 @@ class ListBaseWithIndex(ListBase):
             self.logger.info(
                 "Parsed as sitemapindex, %d sitemaps" %
                 (len(
-                    self.resources)))
+                    index.resources)))
             sitemapindex_is_file = self.is_file_uri(uri)
             if (index_only):
                 # don't read the component sitemaps
                 self.sitemapindex = True
+                for r in index:
+                    if hasattr(self.resources, 'add'):
+                        self.resources.add(r)
+                    else:
+                        self.resources.append(r)
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemaps = self.resources
-            self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            self.logger.info("Now reading %d sitemaps" % len(index.uris()))
+            for sitemap_uri in sorted(index.uris()):
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
@@ -179,7 +190,7 @@ class ListBaseWithIndex(ListBase):
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
-            self.resources.add(r)
+            self.add(r)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
-- 
2.43.0


From 6ad591970e16787339d5b7abd5e76159305e3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 26/50] fix: Map component URIs of a local change list index

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 26f6413..79b7c57 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -370,7 +370,7 @@ class Client(object):
         # 3. Read change list from source
         try:
             self.logger.info("Reading change list %s" % (change_list))
-            src_change_list = ChangeList()
+            src_change_list = ChangeList(mapper=self.mapper)
             src_change_list.read(uri=change_list)
             self.logger.debug("Finished reading change list")
         except Exception as e:
-- 
2.43.0


From bb5516655bd6388a8d6d0b2b4cee679945f9ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 27/50] fix: Do not ignore allow_multifile given for dumps and
 manifests

---
 resync/change_dump.py            | 3 ++-
 resync/change_dump_manifest.py   | 2 ++
 resync/resource_dump.py          | 3 ++-
 resync/resource_dump_manifest.py | 3 ++-
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/resync/change_dump.py b/resync/change_dump.py
index a97a7ac..3f4d132 100644
--- a/resync/change_dump.py
+++ b/resync/change_dump.py
@@ -30,6 +30,7 @@ class ChangeDump(ResourceList):
         subclassing ResourceList.
         """
         super(ChangeDump, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'changedump'
diff --git a/resync/change_dump_manifest.py b/resync/change_dump_manifest.py
index cb2fa22..9988163 100644
--- a/resync/change_dump_manifest.py
+++ b/resync/change_dump_manifest.py
@@ -34,3 +34,5 @@ class ChangeDumpManifest(ChangeList):
             resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'changedump-manifest'
+        if (allow_multifile is not None):
+            self.allow_multifile = allow_multifile
diff --git a/resync/resource_dump.py b/resync/resource_dump.py
index a8541b1..6ade281 100644
--- a/resync/resource_dump.py
+++ b/resync/resource_dump.py
@@ -28,7 +28,8 @@ class ResourceDump(ResourceList):
                  spec_version='1.1', add_lastmod=False):
         """Initialize ResourceDump."""
         super(ResourceDump, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'resourcedump'
 
diff --git a/resync/resource_dump_manifest.py b/resync/resource_dump_manifest.py
index 71790d7..2e93b75 100644
--- a/resync/resource_dump_manifest.py
+++ b/resync/resource_dump_manifest.py
@@ -25,6 +25,7 @@ class ResourceDumpManifest(ResourceList):
                  spec_version='1.1', add_lastmod=False):
         """Initialize ResourceDumpManifest."""
         super(ResourceDumpManifest, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'resourcedump-manifest'
-- 
2.43.0


From f500f1c4c6b016cb38af65baba28e76319a2a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 28/50] fix: Find common directory of files in a dump by path
 components

---
 resync/dump.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..85a09eb 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -138,10 +138,10 @@ class Dump(object):
                     "No file path defined for resource %s" %
                     resource.uri)
             if (path_prefix is None):
-                path_prefix = os.path.dirname(resource.path)
+                path_prefix = os.path.dirname(os.path.abspath(resource.path))
             else:
-                path_prefix = os.path.commonprefix(
-                    [path_prefix, os.path.dirname(resource.path)])
+                path_prefix = os.path.commonpath(
+                    [path_prefix, os.path.dirname(os.path.abspath(resource.path))])
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
-- 
2.43.0


From c0335da62730cc7cf96a29a3b548daac97bb1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 29/50] fix: Distinguish upper and lower case in names of sites
 in client state

---
 resync/client_state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/client_state.py b/resync/client_state.py
index ce30374..8c439ef 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -31,6 +31,7 @@ class ClientState(object):
         FIXME - should have some file lock to avoid race
         """
         parser = ConfigParser()
+        parser.optionxform = str  # else lowercased
         parser.read(self.status_file)
         status_section = 'incremental'
         if (not parser.has_section(status_section)):
@@ -51,6 +52,7 @@ class ClientState(object):
     def get_state(self, site):
         """Read client status file and return dict."""
         parser = ConfigParser()
+        parser.optionxform = str  # else lowercased
         status_section = 'incremental'
         parser.read(self.status_file)
         timestamp = None
-- 
2.43.0


From a734a57ab1308a05aa4ad3edcf9a17483ff6f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 30/50] fix: Refuse link options with empty relation and
 capabilities without name

---
 resync/client_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index ff43b43..95bc30a 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -119,6 +119,8 @@ def parse_link(link_str):
         # First segments are relation and subject
         atts['rel'] = segs.pop(0)
         atts['href'] = segs.pop(0)
+        if (atts['rel'] == ''):
+            raise ClientFatalError("Missing rel in " + help_str)
         if (atts['href'] == ''):
             raise ClientFatalError("Missing uri in " + help_str)
         # Remaining segments are attributes
@@ -147,6 +149,8 @@ def parse_capabilities(caps_str):
         segs = caps_str.split(',')
         for term in segs:
             (k, v) = term.split('=')
+            if (k == ''):
+                raise ValueError("missing name in '%s'" % (term))
             capabilities[k] = v
     except ValueError as e:
         raise ClientFatalError(
-- 
2.43.0


From a9710ef32be3ac897bf4acedc4eb54819cca2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 31/50] fix: Look for resource lists at any local path

---
 resync/client.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 79b7c57..66fe30b 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -130,7 +130,7 @@ class Client(object):
                 "with --capabilitylist" % (uri))
         self.logger.info("Finished reading source description")
         cluri = sd.resources.first().uri
-        uri = urljoin(uri, cluri)  # FIXME - Should relative URI handling be elsewhere?
+        uri = self.resolve_uri(uri, cluri)  # FIXME - Should relative URI handling be elsewhere?
         return(self.find_resource_list_from_capability_list(uri))
 
     def find_resource_list_from_capability_list(self, uri):
@@ -152,7 +152,14 @@ class Client(object):
             raise ClientFatalError(
                 "Capability list %s does not describe a resource list" % (uri))
         rluri = cl.capability_info('resourcelist').uri
-        return(urljoin(uri, rluri))
+        return(self.resolve_uri(uri, rluri))
+
+    def resolve_uri(self, base, uri):
+        """Resolve relative uri in the context of base, which may be a local path."""
+        if (re.match(r'\w+:', base) or re.match(r'\w+:', uri)):
+            return(urljoin(base, uri))
+        # local path, urljoin would treat .., ? and # specially
+        return(os.path.join(os.path.dirname(base), uri))
 
     def find_resource_list(self):
         """Finf resource list by hueristics, returns ResourceList object.
@@ -176,22 +183,21 @@ class Client(object):
             rluri = self.find_resource_list_from_capability_list(self.capability_list_uri)
             return(self.read_resource_list(rluri))
         # 3 & 4
-        parts = urlsplit(self.sitemap)
+        base = re.sub(r'^file:(?!/)', '', self.sitemap)
+        parts = urlsplit(base)
         uri_host = urlunsplit([parts[0], parts[1], '', '', ''])
         errors = []
-        for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
-                    urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
+        for uri in [self.resolve_uri(base, '.well-known/resourcesync'),
+                    self.resolve_uri(uri_host, '.well-known/resourcesync')]:
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
             except ClientError as e:
                 errors.append(str(e))
         # 5, 6 & 7
-        for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
-                    urljoin(self.sitemap, 'sitemap.xml'),
-                    urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
+        for uri in [self.resolve_uri(base, 'resourcelist.xml'),
+                    self.resolve_uri(base, 'sitemap.xml'),
+                    self.resolve_uri(uri_host, 'sitemap.xml')]:
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From d0c06b37f4f956930b2ee2fe041daa835eced67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 32/50] fix: Show headers of web resources in explorer

---
 resync/explorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..6f6faf3 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -278,8 +278,8 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                status_code = str(response.code or 200)  # no code for file: URIs
+                headers = response.headers
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
-- 
2.43.0


From ffa9120e8907d15bee2f1fccdac6a20e1a8b8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 33/50] fix: Compare values and not their notation in explorer
 header checks

---
 resync/explorer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 6f6faf3..fe697aa 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -13,6 +13,7 @@ except ImportError:  # python2
     input = raw_input
 import os.path
 import datetime
+from email.utils import parsedate_to_datetime
 import distutils.dir_util
 import re
 import time
@@ -291,13 +292,28 @@ class Explorer(Client):
                 if header in headers:
                     check_str = ''
                     if (check_headers is not None and header in check_headers):
-                        if (headers[header] == check_headers[header]):
+                        if (self.same_value(header, headers[header], check_headers[header])):
                             check_str = ' MATCHES EXPECTED VALUE'
                         else:
                             check_str = ' EXPECTED %s' % (
                                 check_headers[header])
                     print("  %s: %s%s" % (header, headers[header], check_str))
 
+    def same_value(self, header, value, expected):
+        """True if the header value is the same as the one expected.
+
+        Lengths may be strings or integers, and the last-modified date in web
+        responses is in HTTP format, without fractions of a second, whereas we
+        expect W3C Datetime format.
+        """
+        if (header == 'last-modified' and value != expected):
+            try:
+                timestamp = parsedate_to_datetime(value).timestamp()
+            except (TypeError, ValueError):
+                return(False)
+            return(timestamp == str_to_datetime(expected) // 1)
+        return(str(value) == str(expected))
+
     def head_on_file(self, file):
         """Get fake status code and headers from local file."""
         status_code = '404'
-- 
2.43.0


From c014ac79bec39d15b0d4203a74cb1df40dffce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 34/50] fix: Recognize descriptionindex documents in explorer

---
 resync/explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index fe697aa..429d0c6 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -205,7 +205,7 @@ class Explorer(Client):
             (capability, num_entries))
         if (expected is not None and capability not in expected):
             print("WARNING - expected a %s document" % (','.join(expected)))
-        if (capability not in ['description', 'descriptionoindex', 'capabilitylist',
+        if (capability not in ['description', 'descriptionindex', 'capabilitylist',
                                'resourcelist', 'resourcelistindex', 'changelist', 'changelistindex',
                                'resourcedump', 'resourcedumpindex', 'changedump', 'changedumpindex',
                                'resourcelist-archive', 'resourcedump-archive',
-- 
2.43.0


From 26e25c149d7ccb1eb08787027e196fa3e986dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 35/50] fix: Read documents that up and index links refer to in
 explorer

---
 resync/explorer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 429d0c6..10f4208 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -158,7 +158,9 @@ class Explorer(Client):
         #
         checks = {}
         r = options[inp]
-        if (r.capability is None):
+        if (inp in ('u', 'i')):
+            caps = None  # some other type of capability document
+        elif (r.capability is None):
             if (capability in ['resourcelist', 'changelist',
                                'resourcedump', 'changedump']):
                 caps = 'resource'
-- 
2.43.0


From 53e54a7443027f26e657e9a96d51585e1e812291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 36/50] fix: Resolve references in local documents at any path
 in explorer

---
 resync/explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 10f4208..6a79d02 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -354,7 +354,7 @@ class Explorer(Client):
 
         Prints warning if expansion happens.
         """
-        full_uri = urljoin(context, uri)
+        full_uri = uri if (context is None) else self.resolve_uri(context, uri)
         if (full_uri != uri):
             print("  WARNING - expanded relative URI to %s" % (full_uri))
             uri = full_uri
-- 
2.43.0


From cd5a2b81a1165ecfaf4e9e9acb8cedc266038d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 37/50] fix: List files once if scanned directories overlap

---
 resync/resource_list_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..9e1a7a3 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -185,4 +185,4 @@ class ResourceListBuilder():
             Hashes(self.set_hashes, file).set(r)
         if self.set_length:  # add length
             r.length = file_stat.st_size
-        resource_list.add(r)
+        resource_list.add(r, replace=True)  # may have been added if paths overlap
-- 
2.43.0


From ba83cc654ccc7f534e54e37908eb44a7dd1288c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 38/50] fix: Ignore special files when scanning disk

---
 resync/resource_list_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 9e1a7a3..9b943a9 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -177,6 +177,9 @@ class ResourceListBuilder():
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
+        if not os.path.isfile(file):
+            self.logger.warning("Ignoring special file '%s'" % (file))
+            return
         timestamp = file_stat.st_mtime  # UTC
         r = Resource(uri=uri, timestamp=timestamp)
         if self.set_path:  # add full local path
-- 
2.43.0


From 579f9476367a300a134e9467d11f863c1f23dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 39/50] fix: Keep files named like the manifest of a dump apart
 from it

---
 resync/dump.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resync/dump.py b/resync/dump.py
index 85a09eb..0f254dd 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -154,6 +154,11 @@ class Dump(object):
                     "Size of file (%s, %d) exceeds maximum (%d) dump size" %
                     (resource.path, size, self.max_size))
             total_size += size
+        for resource in self.resources:
+            if (os.path.abspath(resource.path) == os.path.join(path_prefix, 'manifest.xml')):
+                # would get the archive path of the manifest, use next directory up
+                path_prefix = os.path.dirname(path_prefix)
+                break
         self.path_prefix = path_prefix
         self.total_size = total_size
         self.logger.info(
-- 
2.43.0


From 4eae32cfdb8e3315653e5900f19aba98519cf7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 40/50] fix: Do not share links between a resource and its
 copies

---
 resync/resource.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/resource.py b/resync/resource.py
index 85bf637..13a0189 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -1,6 +1,7 @@
 """ResourceSync Resources - information about a web resource and changes."""
 
 import re
+from copy import deepcopy
 from posixpath import basename
 from urllib.parse import urlparse
 
@@ -98,6 +99,7 @@ class Resource(object):
                         'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']:
                 if hasattr(resource, att):
                     setattr(self, att, getattr(resource, att))
+            self.ln = deepcopy(self.ln)
         # Any arguments will then override
         if (uri is not None):
             self.uri = uri
-- 
2.43.0


From 3077e45c13438f7254345e9c1b07c8c5ca049d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 41/50] fix: Report changes as applied after and not before
 they are

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 66fe30b..fff68ce 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -451,7 +451,7 @@ class Client(object):
         # either there are no changes or if there are only deletions and
         # we don't allow deletion
         in_sync = ((to_update + to_delete + to_create) == 0)
-        self.log_status(in_sync=in_sync, incremental=True, created=to_create,
+        self.log_status(in_sync=in_sync, incremental=True, audit=True, created=to_create,
                         updated=to_update, deleted=to_delete)
         if (in_sync or ((to_update + to_create) == 0 and not allow_deletion)):
             self.logger.debug("Completed incremental")
@@ -481,7 +481,7 @@ class Client(object):
             else:
                 raise ClientError("Unknown change type %s" % (resource.change))
         # 7. Report status and planned actions
-        self.log_status(incremental=True, created=num_created, updated=num_updated,
+        self.log_status(in_sync=False, incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
         if (not self.dryrun and self.last_timestamp > 0):
-- 
2.43.0


From fdea8c569c442c464447e4f32a3a71d9c7f80f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 42/50] fix: Write change lists without a note on dumps not
 asked for

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index fff68ce..2feaeb3 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -765,7 +765,7 @@ class Client(object):
 
     def write_dump_if_requested(self, resource_list, dump):
         """Write a dump to the file dump."""
-        if (dump is None):
+        if (not dump):
             return
         print("OOPS - FIXME - Wrinting dump to %s not yet implemented" % (dump))
         return(1)
-- 
2.43.0


From b8fa43ddb3fe86f398506e36c071bc83a8ecc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 43/50] fix: Expect source descriptions at the well-known
 location in explorer

---
 resync/explorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 6a79d02..f1bbeee 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -82,13 +82,13 @@ class Explorer(Client):
                     starts.append(
                         XResource(
                             well_known, [
-                                'capabilitylist', 'capabilitylistindex']))
+                                'description', 'descriptionindex']))
                 else:
                     starts.append(XResource(uri))
                     starts.append(
                         XResource(
                             well_known, [
-                                'capabilitylist', 'capabilitylistindex']))
+                                'description', 'descriptionindex']))
                 print("Looking for discovery information based on mappings")
         else:
             raise ClientFatalError(
-- 
2.43.0


From 2a9882c1e82fced68a62514ff2600119452b6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 44/50] fix: Refuse sources that no destination can be named
 after

---
 resync/mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/mapper.py b/resync/mapper.py
index 48d4b51..9bcd363 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -47,6 +47,10 @@ class Mapper():
                 and len(mappings) == 1
                 and re.search(r"=", mappings[0]) is None):
             path = self.path_from_uri(mappings[0])
+            if (path == ''):
+                raise MapperError(
+                    "Can't make a local path from source URI (%s)" %
+                    (mappings[0]))
             self.logger.warning("Using URI mapping: %s -> %s" %
                                 (mappings[0], path))
             self.mappings.append(Map(mappings[0], path))
-- 
2.43.0


From d6c969ec00d6d230058c994afc37dec0e9de9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 45/50] fix: manifests written beside dump archives list the
 archive paths

---
 resync/dump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0f254dd..a84c5bd 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -42,8 +42,6 @@ class Dump(object):
         for manifest in self.partition_dumps():
             dumpbase = "%s%05d" % (basename, n)
             dumpfile = "%s.%s" % (dumpbase, self.format)
-            if (write_separate_manifests):
-                manifest.write(basename=dumpbase + '.xml')
             if (self.format == 'zip'):
                 self.write_zip(manifest.resources, dumpfile)
             elif (self.format == 'warc'):
@@ -52,6 +50,9 @@ class Dump(object):
                 raise DumpError(
                     "Unknown dump format requested (%s)" %
                     (self.format))
+            # write separate manifest last so that it has the archive paths
+            if (write_separate_manifests):
+                manifest.write(basename=dumpbase + '.xml')
             n += 1
         self.logger.info("Wrote %d dump files" % (n))
         return(n)
-- 
2.43.0


From 6712485d80ae58398e843501a5efaf8b68e47d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:37 +0000
Subject: [PATCH 46/50] fix: recognize https (and other longer schemes) as no
 local file when reading an index

is_file_uri knew schemes of three or four letters only: parts of a local
index with https URIs were fetched from the web instead of being mapped to
local files, and parts of an https index with http URIs were mapped to local
files. As an https index was checked for authority only because it was taken
for a file, the check (if enabled) now applies to every part that is not mapped.
---
 resync/list_base_with_index.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 7f3cf31..f47f592 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -154,22 +154,21 @@ class ListBaseWithIndex(ListBase):
 
         Each component must be a sitemap with the
         """
-        if (sitemapindex_is_file):
-            if (not self.is_file_uri(sitemap_uri)):
-                # Attempt to map URI to local file
-                remote_uri = sitemap_uri
-                sitemap_uri = self.mapper.src_to_dst(remote_uri)
-                self.logger.info(
-                    "Mapped %s to local file %s" %
-                    (remote_uri, sitemap_uri))
-            else:
-                # The individual sitemaps should be at a URL (scheme/server/path)
-                # that the sitemapindex URL can speak authoritatively about
-                if (self.check_url_authority
-                        and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
-                    raise ListBaseIndexError(
-                        "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
-                        (sitemapindex_uri, sitemap_uri))
+        if (sitemapindex_is_file and not self.is_file_uri(sitemap_uri)):
+            # Attempt to map URI to local file
+            remote_uri = sitemap_uri
+            sitemap_uri = self.mapper.src_to_dst(remote_uri)
+            self.logger.info(
+                "Mapped %s to local file %s" %
+                (remote_uri, sitemap_uri))
+        else:
+            # The individual sitemaps should be at a URL (scheme/server/path)
+            # that the sitemapindex URL can speak authoritatively about
+            if (self.check_url_authority
+                    and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
+                raise ListBaseIndexError(
+                    "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
+                    (sitemapindex_uri, sitemap_uri))
         try:
             fh = url_or_file_open(sitemap_uri)
             self.num_files += 1
@@ -426,7 +425,7 @@ class ListBaseWithIndex(ListBase):
         Test is to see whether have either an explicit file: URI or whether
         there is no scheme name.
         """
-        return(re.match(r'file:', uri) or not re.match(r'\w{3,4}:', uri))
+        return(re.match(r'file:', uri) or not re.match(r'\w{3,}:', uri))
 
 
 class ListBaseIndexError(Exception):
-- 
2.43.0


From c920f1922c9e8c56eae5e7b8371f20d3a6863649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:52 +0000
Subject: [PATCH 47/50] fix: make directories removed since an earlier sync by
 the same process

mkpath remembers the directories it has made and does not make them again.
---
 resync/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 2feaeb3..ed7e48c 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -7,7 +7,6 @@ except ImportError:  # pragma: no cover  python2
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
 import os.path
 import datetime
-import distutils.dir_util
 import re
 import time
 import logging
@@ -511,7 +510,7 @@ class Client(object):
         """
         path = os.path.dirname(filename)
         if (not self.dryrun):
-            distutils.dir_util.mkpath(path)
+            os.makedirs(path or '.', exist_ok=True)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
-- 
2.43.0


From afd5651219cbbe09c897f7ae00b3a0162e1f90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:52 +0000
Subject: [PATCH 48/50] fix: report a directory that cannot be made as a failed
 download

---
 resync/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index ed7e48c..ee812c1 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -509,8 +509,6 @@ class Client(object):
         Returns the number of resources updated/created (0 or 1)
         """
         path = os.path.dirname(filename)
-        if (not self.dryrun):
-            os.makedirs(path or '.', exist_ok=True)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
@@ -520,6 +518,7 @@ class Client(object):
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
+                    os.makedirs(path or '.', exist_ok=True)
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
-- 
2.43.0


From 27ddb9a96d39304dbdb3222efed19f7db178bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:57 +0000
Subject: [PATCH 49/50] fix: keep the stored state when writing it fails part
 way

---
 resync/client_state.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index 8c439ef..f4c6153 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -45,9 +45,12 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w') as configfile:
+        # Replace the file only when complete so that a failure part way
+        # does not lose what is already stored
+        new_status_file = self.status_file + '.new'
+        with open(new_status_file, 'w') as configfile:
             parser.write(configfile)
-            configfile.close()
+        os.replace(new_status_file, self.status_file)
 
     def get_state(self, site):
         """Read client status file and return dict."""
-- 
2.43.0


From 8a03a5d0a0074aed6234f602fcecff0e4c279cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:10 +0000
Subject: [PATCH 50/50] fix: leave the links of a list alone when writing it in
 parts

The parts shared the link objects of the list, so that an index link it
had already was replaced in the list and in the index document.
---
 resync/list_base_with_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index f47f592..67cb113 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -319,7 +319,7 @@ class ListBaseWithIndex(ListBase):
             # max_sitemap_entries to go into each sitemap, store the
             # names of the sitemaps as we go. Copy md from self into
             # the index and use this for all chunks also
-            index = ListBase(md=self.md.copy(), ln=list(self.ln))
+            index = ListBase(md=self.md.copy(), ln=[link.copy() for link in self.ln])
             index.capability_name = self.capability_name
             index.default_capability()
             while (len(chunk) > 0):
@@ -382,7 +382,7 @@ class ListBaseWithIndex(ListBase):
         the iterator, providing indication of whether more is available.
         Use this as first when asking for the following chunk.
         """
-        chunk = ListBase(md=self.md.copy(), ln=list(self.ln))
+        chunk = ListBase(md=self.md.copy(), ln=[link.copy() for link in self.ln])
         chunk.capability_name = self.capability_name
         chunk.default_capability()
         if (first is not None):
-- 
2.43.0

