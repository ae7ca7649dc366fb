From 98d83f19a3bd8795cef174bc0bbc0f00057ebef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 01/24] fix: log out an avatar whose login completes after the
 connection was lost

---
 epsilon/ampauth.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index ad0a3bb..628460b 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -175,6 +175,7 @@ class CredReceiver(AMP):
     """
     portal = None
     logout = None
+    _disconnected = False
 
     @PasswordLogin.responder
     def passwordLogin(self, username):
@@ -193,6 +194,11 @@ class CredReceiver(AMP):
         d = self.portal.login(credentials, None, IBoxReceiver)
         def cbLoggedIn(result):
             interface, avatar, logout = result
+            if self._disconnected:
+                # The connection was lost while the login was in progress, so
+                # connectionLost could not log this avatar out.
+                logout()
+                return {}
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
@@ -222,6 +228,7 @@ class CredReceiver(AMP):
         """
         If a login has happened, perform a logout.
         """
+        self._disconnected = True
         AMP.connectionLost(self, reason)
         if self.logout is not None:
             self.logout()
-- 
2.43.0


From 4a1980e826b610cf6aa21b23e5987149eb13cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:44 +0000
Subject: [PATCH 02/24] fix: remember a created value that is None

---
 epsilon/remember.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 148c670..dde2acc 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -27,9 +27,8 @@ class remembered(record('creationFunction')):
         C{creationFunction} to create it.
         """
         remembername = "_remembered_" + self.creationFunction.__name__
-        rememberedval = oself.__dict__.get(remembername, None)
-        if rememberedval is not None:
-            return rememberedval
+        if remembername in oself.__dict__:
+            return oself.__dict__[remembername]
         rememberme = self.creationFunction(oself)
         oself.__dict__[remembername] = rememberme
         return rememberme
-- 
2.43.0


From 3b1f563acc1041bcf7d8ca615d6b4b88c18b8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:17 +0000
Subject: [PATCH 03/24] fix: honour the declared mode attribute in modal
 classes

A class with a modeAttribute other than 'mode' had no initial mode, and
transitionTo changed an unrelated attribute.
---
 epsilon/modal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index bfc4cb2..84b38c5 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -101,7 +101,7 @@ class ModalType(type):
         # for that mode.
         implementations = {}
 
-        keepAttrs = {'mode': initialMode}
+        keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
@@ -130,6 +130,6 @@ class Modal(object):
 
     def transitionTo(self, stateName):
         self.__exit__()
-        self.mode = stateName
+        setattr(self, self.modeAttribute, stateName)
         self.__enter__()
 
-- 
2.43.0


From 30ef7c6e086807c1f18d68da7b505740ed9c687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:49 +0000
Subject: [PATCH 04/24] fix: allow a route to be unbound before its router is
 started

Router._routes is None until then, so Route.unbind raised TypeError and the
route stayed bound.
---
 epsilon/amprouter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index dbb9f18..db06716 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -65,7 +65,10 @@ class Route(record('router receiver localRouteName remoteRouteName',
         """
         Remove the association between this route and its router.
         """
-        del self.router._routes[self.localRouteName]
+        mapping = self.router._routes
+        if mapping is None:
+            mapping = self.router._unstarted
+        del mapping[self.localRouteName]
 
 
     def start(self):
-- 
2.43.0


From 51c880e0b1655f9d2b80ad871973598ecb11a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:50 +0000
Subject: [PATCH 05/24] fix: let receivers change the routes while a router
 starts or stops

The live mapping was iterated, so a receiver which bound or unbound a route
while being started or stopped aborted the start or stop of the others, and
one connected by an earlier receiver was started twice.
---
 epsilon/amprouter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index db06716..9b56099 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -172,15 +172,18 @@ class Router:
         """
         Initialize route tracking objects.
         """
+        # Any route which has been bound but which does not yet have a remote
+        # route name should not yet be started.  These will be started in
+        # Route.connectTo.
+        connected = [route for route in six.itervalues(self._unstarted)
+                     if route.remoteRouteName is not _unspecified]
         self._sender = sender
-        for routeName, route in six.viewitems(self._unstarted):
-            # Any route which has been bound but which does not yet have a
-            # remote route name should not yet be started.  These will be
-            # started in Route.connectTo.
-            if route.remoteRouteName is not _unspecified:
-                route.start()
         self._routes = self._unstarted
         self._unstarted = None
+        # The receivers may bind, connect or unbind other routes while they
+        # are being started.
+        for route in connected:
+            route.start()
 
 
     def ampBoxReceived(self, box):
@@ -196,7 +199,7 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
-        for routeName, route in six.viewitems(self._routes):
+        for route in list(six.itervalues(self._routes)):
             route.stop(reason)
         self._routes = None
 
-- 
2.43.0


From d12478714e655e44100c5ea8a39c20e43b315c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:51 +0000
Subject: [PATCH 06/24] fix: never generate the name of a bound route

Router.createRouteIdentifier could return a name the application had bound
explicitly, so that bindRoute silently replaced that route.
---
 epsilon/amprouter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 9b56099..47b2f10 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -141,7 +141,13 @@ class Router:
 
         @rtype: C{unicode}
         """
-        return six.text_type(next(self._routeCounter))
+        mapping = self._routes
+        if mapping is None:
+            mapping = self._unstarted
+        while True:
+            routeName = six.text_type(next(self._routeCounter))
+            if mapping is None or routeName not in mapping:
+                return routeName
 
 
     def bindRoute(self, receiver, routeName=_unspecified):
-- 
2.43.0


From 0e30182ee7ca541412ac54853d280fab8c70e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:09 +0000
Subject: [PATCH 07/24] fix: close the connection after replying with a fatal
 error

checkKnownErrors looked the Failure up among the command's fatal error
classes, where it is never found, so no declared error was ever fatal.
---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6a58863..5dad654 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -225,7 +225,7 @@ class DispatchMixin:
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-                        code, desc, error in command.fatalErrors))
+                        code, desc, key in command.fatalErrors))
             return maybeDeferred(aCallable, **kw).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
-- 
2.43.0


From f97446ae565e13aaa8739f39699b6c6bd5e09b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:37 +0000
Subject: [PATCH 08/24] fix: do not connect the new protocol a second time
 after a switch

_switchTo has already connected it when a box with a body makes the
connection switch protocols.
---
 epsilon/juice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5dad654..e8ddee4 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -909,7 +909,6 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                self.innerProtocol.makeConnection(self.transport)
                 if extraData:
                     self.innerProtocol.dataReceived(extraData)
             else:
-- 
2.43.0


From 428ba4352d58efc3f5871058c0b81ab45c26aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:38 +0000
Subject: [PATCH 09/24] fix: deliver no line once the transport is
 disconnecting

The transport was only looked at after a line had been delivered, so
that bytes arriving, or left over by raw mode, while it was already
disconnecting still had their first line delivered.
---
 epsilon/liner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index a28352a..8e53b28 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -40,14 +40,14 @@ class LineReceiver(Protocol):
         begin = 0
         raw = False
         while self.lineMode:
+            if self.isDisconnecting():
+                self.buffer = b''
+                return
             end = buffer.find(delimiter, begin)
             if end == -1:
                 break
             line = buffer[begin:end]
             self.lineReceived(line)
-            if self.isDisconnecting():
-                self.buffer = b''
-                return
             begin = end + len(delimiter)
         else:
             raw = True
-- 
2.43.0


From 96f8c9f77774b3dc9714039e48e96a5d9647005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 10/24] fix: juice Unicode and Path arguments convert on Python
 3

The strings of a box are native strings; Unicode produced bytes (which
JuiceBox.serialize cannot put on the wire) and called decode on a str.
---
 epsilon/juice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e8ddee4..1dfe33e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -513,11 +513,11 @@ Body = String
 class Unicode(String):
     def toString(self, inObject):
         # assert isinstance(inObject, unicode)
-        return String.toString(self, inObject.encode('utf-8'))
+        return String.toString(self, six.ensure_str(inObject))
 
     def fromString(self, inString):
         # assert isinstance(inString, str)
-        return String.fromString(self, inString).decode('utf-8')
+        return six.ensure_text(String.fromString(self, inString))
 
 class Path(Unicode):
     def fromString(self, inString):
-- 
2.43.0


From 81db595740a78aff9cf21969a207f26397cfa081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:55 +0000
Subject: [PATCH 11/24] fix: juice Base64Binary arguments convert on Python 3

str has no base64 codec on Python 3; use the base64 module.
---
 epsilon/juice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 1dfe33e..6ed9fee 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -3,6 +3,7 @@
 
 import warnings, pprint
 import keyword
+import base64
 import io
 
 import six
@@ -533,9 +534,9 @@ class Float(Argument):
 
 class Base64Binary(Argument):
     def toString(self, inObject):
-        return inObject.encode('base64').replace('\n', '')
+        return six.ensure_str(base64.b64encode(inObject))
     def fromString(self, inString):
-        return inString.decode('base64')
+        return base64.b64decode(inString)
 
 class Time(Argument):
     def toString(self, inObject):
-- 
2.43.0


From 9bb763191c27c6d63dbce746e333ef39efbcb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 12/24] fix: the minutes of a western ISO 8601 timezone count
 westwards

---
 epsilon/extime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 33b7103..b767831 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -414,7 +414,10 @@ class Time(object):
                 tzhour = groups.pop('tzhour')
                 tzmin = groups.pop('tzmin')
                 if tzhour is not None:
-                    return FixedOffset(int(tzhour), int(tzmin or 0))
+                    minutes = int(tzmin or 0)
+                    if tzhour.startswith('-'):
+                        minutes = -minutes
+                    return FixedOffset(int(tzhour), minutes)
             return tzinfo or FixedOffset(0, 0)
 
         def coerceGroups():
-- 
2.43.0


From 079f4cb71813ccdf5387f7cc1e207bd67be9ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 13/24] fix: parse the ISO 8601 year 9999

---
 epsilon/extime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index b767831..761323f 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -490,6 +490,8 @@ class Time(object):
                     return datetime.timedelta(days=31)
                 nextMonth = self._time.replace(month=self._time.month+1)
                 return nextMonth - self._time
+            elif self._time.year == datetime.MAXYEAR:
+                return datetime.timedelta(days=365)
             else:
                 nextYear = self._time.replace(year=self._time.year+1)
                 return nextYear - self._time
-- 
2.43.0


From eb550325a3574e4d90e764e8d1514f963fc7a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 14/24] fix: 12 pm is noon

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 761323f..6e1b69c 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -230,7 +230,7 @@ class Time(object):
                 raise ValueError('hour %i is not in 1..12' % (hour,))
             if hour == 12 and ampm == 'am':
                 hour = 0
-            elif ampm == 'pm':
+            elif hour != 12 and ampm == 'pm':
                 hour += 12
         if not 0 <= hour <= 23:
             raise ValueError('hour %i is not in 0..23' % (hour,))
-- 
2.43.0


From 480ab7c7f00e4c7d952541de5b389763fb872372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 15/24] fix: times can be ordered on Python 3

---
 epsilon/extime.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 6e1b69c..4e8fffb 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -943,6 +943,18 @@ class Time(object):
             raise TypeError("Cannot meaningfully compare %r with %r" % (self, other))
         return cmp(self._time, other._time)
 
+    def __lt__(self, other):
+        return self.__cmp__(other) < 0
+
+    def __le__(self, other):
+        return self.__cmp__(other) <= 0
+
+    def __gt__(self, other):
+        return self.__cmp__(other) > 0
+
+    def __ge__(self, other):
+        return self.__cmp__(other) >= 0
+
     def __eq__(self, other):
         if isinstance(other, Time):
             return cmp(self._time, other._time) == 0
-- 
2.43.0


From dfcef35ecd719af7bf79b70f687422766e6f87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:19 +0000
Subject: [PATCH 16/24] fix: ISO 8601 days beyond the end of year 9999 are a
 ValueError

---
 epsilon/extime.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 4e8fffb..2d19cd0 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -515,8 +515,12 @@ class Time(object):
                     tzinfo=tzinfo
                 )
                 dtime -= datetime.timedelta(days = dtime.weekday())
-                dtime += datetime.timedelta(
-                    days = (groups['week']-1) * 7 + groups['weekday'] - 1)
+                try:
+                    dtime += datetime.timedelta(
+                        days = (groups['week']-1) * 7 + groups['weekday'] - 1)
+                except OverflowError:
+                    raise ValueError('year %04i has no week %02i' %
+                                     (groups['year'], groups['week']))
                 if dtime.isocalendar() != (
                     groups['year'], groups['week'], groups['weekday']):
                     # actually the problem could be an error in my logic, but
@@ -537,7 +541,12 @@ class Time(object):
                     int(round(groups['fractionalsec'] * 1000000)),
                     tzinfo=tzinfo
                 )
-                dtime += datetime.timedelta(days=groups['dayofyear']-1)
+                try:
+                    dtime += datetime.timedelta(days=groups['dayofyear']-1)
+                except OverflowError:
+                    raise ValueError(
+                        'year %04i has no day of year %03i' %
+                        (groups['year'], groups['dayofyear']))
                 if dtime.year != groups['year']:
                     raise ValueError(
                         'year %04i has no day of year %03i' %
-- 
2.43.0


From 607ff3b96e89975fd9f6ab4f07d7bf50bda4d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:01 +0000
Subject: [PATCH 17/24] fix: the benchmark backchannel speaks bytes on Python 3

---
 epsilon/scripts/benchmark.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 1b28212..d045d67 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -230,8 +230,8 @@ class Change(object):
 
 class BenchmarkProcess(BasicProcess):
 
-    START = '\0'
-    STOP = '\1'
+    START = b'\0'
+    STOP = b'\1'
 
 
     def __init__(self, *a, **kw):
@@ -266,7 +266,8 @@ class BenchmarkProcess(BasicProcess):
     def childDataReceived(self, childFD, data):
         if childFD == self.BACKCHANNEL_OUT:
             self.resetTimeout()
-            for byte in data:
+            for i in range(len(data)):
+                byte = data[i:i + 1]
                 if byte == self.START:
                     self.startTiming()
                 elif byte == self.STOP:
-- 
2.43.0


From ca5026f30e93f2d1f9bca5b158ebdaba6e71b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:01 +0000
Subject: [PATCH 18/24] fix: report results when a device only appeared during
 the run

---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index d045d67..bcf5b5d 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -363,7 +363,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
         tt = utils.FileWrapper(output)
         jj.makeConnection(tt)
 
-        if after.partition is not None:
+        if before.partition is not None and after.partition is not None:
             read_count = after.partition.readCount - before.partition.readCount
             read_sectors = after.partition.readSectorCount - before.partition.readSectorCount
             write_count = after.partition.writeCount - before.partition.writeCount
@@ -374,7 +374,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
             write_count = None
             write_sectors = None
 
-        if after.disk is not None:
+        if before.disk is not None and after.disk is not None:
             read_ms = after.disk.readMilliseconds - before.disk.readMilliseconds
             write_ms = after.disk.writeMilliseconds - before.disk.writeMilliseconds
         else:
-- 
2.43.0


From 8995ac070ebd38ebced4e020341a8f43c106e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:01 +0000
Subject: [PATCH 19/24] fix: a mount point is a whole path, not a prefix of one

---
 epsilon/scripts/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index bcf5b5d..e41ba53 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -425,7 +425,7 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if cwd.startswith(parts[1]):
+            if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
                 possibilities.append((len(parts[1]), parts[0]))
     possibilities.sort()
     try:
-- 
2.43.0


From 35a15ae96b2f50e54bf883e48aa66976b8660bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 20/24] fix: a box announces the length of its body in bytes,
 not characters

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6ed9fee..4a05b5b 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -66,7 +66,7 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(self[BODY]))
+                v = str(len(six.ensure_binary(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
             L.append(six.ensure_binary(v).replace(delimiter, escaped))
-- 
2.43.0


From 85da085a5a3400f0c1da26db9d889eb24f3fc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 21/24] fix: an error box without a code or description does
 not drop the request it names

---
 epsilon/juice.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 4a05b5b..80d202e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -336,11 +336,10 @@ class JuiceParserBase(DispatchMixin):
             question.addErrback(self._puke)
             self._wrap(question.callback)(box)
         elif ERROR in box:
+            error = RemoteJuiceError(box[ERROR_CODE], box[ERROR_DESCRIPTION])
             question = self._outstandingRequests.pop(box[ERROR])
             question.addErrback(self._puke)
-            self._wrap(question.errback)(
-                Failure(RemoteJuiceError(box[ERROR_CODE],
-                                         box[ERROR_DESCRIPTION])))
+            self._wrap(question.errback)(Failure(error))
         elif COMMAND in box:
             cmd = box[COMMAND]
             def sendAnswer(answerBox):
-- 
2.43.0


From 1d82c781f42bdda901de327f4acaec87eda35da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:27 +0000
Subject: [PATCH 22/24] fix: preparing TLS twice does not drop the boxes
 withheld in between

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 80d202e..42c5a36 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -838,7 +838,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
     _startingTLSBuffer = None
 
     def prepareTLS(self):
-        self._startingTLSBuffer = []
+        if self._startingTLSBuffer is None:
+            self._startingTLSBuffer = []
 
     def startTLS(self, certificate, *verifyAuthorities):
         if self.hostCertificate is None:
-- 
2.43.0


From 02889bb9f24e3d7cbdfb069bdbcb03cf71fddf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 23/24] fix: EncodedString arguments are native strings in a
 box

EncodedString put bytes into boxes: they could not be listed by ListOf, and
what was read back from the wire, a native string, could not be decoded.
---
 epsilon/juice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 42c5a36..d1a5103 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -501,10 +501,11 @@ class EncodedString(Argument):
         self.encoding = encoding
 
     def toString(self, inObject):
-        return inObject.encode(self.encoding)
+        # boxes hold native strings
+        return six.ensure_str(inObject.encode(self.encoding))
 
     def fromString(self, inString):
-        return inString.decode(self.encoding)
+        return six.ensure_binary(inString).decode(self.encoding)
 
 # Temporary backwards compatibility for Exponent
 
-- 
2.43.0


From 8c3869b25ff97a2f9606fa204c3e4e0232804ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 24/24] fix: SchedulingService did not say whether it runs

Neither startService nor stopService called up to Service, so the
running attribute of IService stayed false while the service ran.
---
 epsilon/cooperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index a6b6113..8b3f2e0 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -22,9 +22,11 @@ class SchedulingService(Service):
         return self.coop.coiterate(iterator)
 
     def startService(self):
+        Service.startService(self)
         self.coop.start()
 
     def stopService(self):
+        Service.stopService(self)
         self.coop.stop()
 
 __all__ = [
-- 
2.43.0

