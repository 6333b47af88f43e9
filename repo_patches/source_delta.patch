From ad49fe94120714c53881db774e7068a5cf973651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 01/36] fix: run the background task of a FileResponse when the
 range request is rejected

---
 starlette/responses.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 81e89fa..16e51f4 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -361,16 +361,16 @@ class FileResponse(Response):
             try:
                 ranges = self._parse_range_header(http_range, stat_result.st_size)
             except MalformedRangeHeader as exc:
-                return await PlainTextResponse(exc.content, status_code=400)(scope, receive, send)
+                await PlainTextResponse(exc.content, status_code=400)(scope, receive, send)
             except RangeNotSatisfiable as exc:
                 response = PlainTextResponse(status_code=416, headers={"Content-Range": f"*/{exc.max_size}"})
-                return await response(scope, receive, send)
-
-            if len(ranges) == 1:
-                start, end = ranges[0]
-                await self._handle_single_range(send, start, end, stat_result.st_size, send_header_only)
+                await response(scope, receive, send)
             else:
-                await self._handle_multiple_ranges(send, ranges, stat_result.st_size, send_header_only)
+                if len(ranges) == 1:
+                    start, end = ranges[0]
+                    await self._handle_single_range(send, start, end, stat_result.st_size, send_header_only)
+                else:
+                    await self._handle_multiple_ranges(send, ranges, stat_result.st_size, send_header_only)
 
         if self.background is not None:
             await self.background()
-- 
2.43.0


From ee652ac9ba78f412b88a9f867fc0bbb76da76ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 02/36] fix: reject a byte range whose last position precedes
 its first

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 16e51f4..9cb33a2 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -471,7 +471,7 @@ class FileResponse(Response):
         if any(not (0 <= start < file_size) for start, _ in ranges):
             raise RangeNotSatisfiable(file_size)
 
-        if any(start > end for start, end in ranges):
+        if any(start >= end for start, end in ranges):
             raise MalformedRangeHeader("Range header: start must be less than end")
 
         if len(ranges) == 1:
-- 
2.43.0


From 752988c5ee83d9aa56a2d82a8b735ab130b52955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 03/36] fix: let SessionMiddleware handle a response start
 without headers

---
 starlette/middleware/sessions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/middleware/sessions.py b/starlette/middleware/sessions.py
index 5f9fcd8..11f9ffe 100644
--- a/starlette/middleware/sessions.py
+++ b/starlette/middleware/sessions.py
@@ -56,6 +56,7 @@ class SessionMiddleware:
 
         async def send_wrapper(message: Message) -> None:
             if message["type"] == "http.response.start":
+                message.setdefault("headers", [])
                 if scope["session"]:
                     # We have session data to persist.
                     data = b64encode(json.dumps(scope["session"]).encode("utf-8"))
-- 
2.43.0


From 18551f58532833cdf8a5ad7a3fabd7ea90718791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 04/36] fix: let GZipMiddleware handle messages without headers
 or body

---
 starlette/middleware/gzip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index c7fd5b7..d218c32 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -51,7 +51,7 @@ class IdentityResponder:
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
             self.initial_message = message
-            headers = Headers(raw=self.initial_message["headers"])
+            headers = Headers(raw=self.initial_message.setdefault("headers", []))
             self.content_encoding_set = "content-encoding" in headers
             self.content_type_is_excluded = headers.get("content-type", "").startswith(DEFAULT_EXCLUDED_CONTENT_TYPES)
         elif message_type == "http.response.body" and (self.content_encoding_set or self.content_type_is_excluded):
@@ -73,7 +73,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     headers["Content-Length"] = str(len(body))
                     message["body"] = body
@@ -86,7 +86,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
                     message["body"] = body
-- 
2.43.0


From ec0da608d6070751d7dfb2128f58c73e5625d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 05/36] fix: do not change the application's own header list in
 GZipMiddleware

---
 starlette/middleware/gzip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index d218c32..0be5864 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -71,7 +71,7 @@ class IdentityResponder:
                 # Standard response.
                 body = self.apply_compression(body, more_body=False)
 
-                headers = MutableHeaders(raw=self.initial_message["headers"])
+                headers = MutableHeaders(scope=self.initial_message)
                 headers.add_vary_header("Accept-Encoding")
                 if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
@@ -84,7 +84,7 @@ class IdentityResponder:
                 # Initial body in streaming response.
                 body = self.apply_compression(body, more_body=True)
 
-                headers = MutableHeaders(raw=self.initial_message["headers"])
+                headers = MutableHeaders(scope=self.initial_message)
                 headers.add_vary_header("Accept-Encoding")
                 if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
-- 
2.43.0


From 33bf647e3924b43ee760da086ce2e24d533f78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 06/36] fix: forward the messages GZipMiddleware does not
 compress

---
 starlette/middleware/gzip.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 0be5864..144c478 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -93,7 +93,7 @@ class IdentityResponder:
 
                 await self.send(self.initial_message)
                 await self.send(message)
-        elif message_type == "http.response.body":  # pragma: no branch
+        elif message_type == "http.response.body":
             # Remaining body in streaming response.
             body = message.get("body", b"")
             more_body = message.get("more_body", False)
@@ -101,6 +101,14 @@ class IdentityResponder:
             message["body"] = self.apply_compression(body, more_body=more_body)
 
             await self.send(message)
+        else:
+            # Not a compressible message (an ASGI extension): pass it on, after the
+            # pending initial message if there is one.
+            if self.initial_message and not self.started:
+                self.started = True
+                self.content_encoding_set = True
+                await self.send(self.initial_message)
+            await self.send(message)
 
     def apply_compression(self, body: bytes, *, more_body: bool) -> bytes:
         """Apply compression on the response body.
-- 
2.43.0


From 6a8b80c59784f5d2e76a4c1e61be5a357968f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 07/36] fix: let BaseHTTPMiddleware handle a response start
 without headers

---
 starlette/middleware/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 2a59337..e7a11fb 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -165,7 +165,7 @@ class BaseHTTPMiddleware:
                         break
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = message["headers"]
+            response.raw_headers = message.get("headers", [])
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
-- 
2.43.0


From c35f66f9c5f2a8c1501576b0389d5147bbcd136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 08/36] fix: HTTPEndpoint never dispatches a request method to
 its own attributes

---
 starlette/endpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 1076902..072afca 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -32,7 +32,10 @@ class HTTPEndpoint:
         request = Request(self.scope, receive=self.receive)
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
-        handler: typing.Callable[[Request], typing.Any] = getattr(self, handler_name, self.method_not_allowed)
+        handler: typing.Callable[[Request], typing.Any] = self.method_not_allowed
+        # The method is chosen by the client: it must not reach the endpoint's own attributes, such as `dispatch`.
+        if not hasattr(HTTPEndpoint, handler_name) and handler_name not in vars(self):
+            handler = getattr(self, handler_name, self.method_not_allowed)
         is_async = is_async_callable(handler)
         if is_async:
             response = await handler(request)
-- 
2.43.0


From 1825bb93427048c54be2c752c9fed0ffffa06322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 09/36] fix: WebSocketEndpoint refuses a payload of the wrong
 kind when the server sends the other field as None

---
 starlette/endpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 072afca..6c25269 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -88,13 +88,13 @@ class WebSocketEndpoint:
 
     async def decode(self, websocket: WebSocket, message: Message) -> typing.Any:
         if self.encoding == "text":
-            if "text" not in message:
+            if message.get("text") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected text websocket messages, but got bytes")
             return message["text"]
 
         elif self.encoding == "bytes":
-            if "bytes" not in message:
+            if message.get("bytes") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected bytes websocket messages, but got text")
             return message["bytes"]
-- 
2.43.0


From 5b7076dffce9744b3bce3fa11a80804dfe94fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 10/36] fix: WebSocketEndpoint without encoding accepts empty
 text messages

---
 starlette/endpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 6c25269..48452e5 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -112,7 +112,7 @@ class WebSocketEndpoint:
                 raise RuntimeError("Malformed JSON data received.")
 
         assert self.encoding is None, f"Unsupported 'encoding' attribute {self.encoding}"
-        return message["text"] if message.get("text") else message["bytes"]
+        return message["text"] if message.get("text") is not None else message["bytes"]
 
     async def on_connect(self, websocket: WebSocket) -> None:
         """Override to handle an incoming websocket connection"""
-- 
2.43.0


From 13af110d9682825d4239f2389a8b3eae65c59c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 11/36] fix: WebSocketEndpoint closes with 1003 on JSON
 messages that are not valid UTF-8

---
 starlette/endpoints.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 48452e5..fe5d851 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -100,14 +100,13 @@ class WebSocketEndpoint:
             return message["bytes"]
 
         elif self.encoding == "json":
-            if message.get("text") is not None:
-                text = message["text"]
-            else:
-                text = message["bytes"].decode("utf-8")
-
             try:
+                if message.get("text") is not None:
+                    text = message["text"]
+                else:
+                    text = message["bytes"].decode("utf-8")
                 return json.loads(text)
-            except json.decoder.JSONDecodeError:
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError):
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Malformed JSON data received.")
 
-- 
2.43.0


From 1fd52647b1e5fbd5547d78eb45502d33e59cd8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 12/36] fix: do not raise an exception again that a
 BaseHTTPMiddleware dispatch has handled

---
 starlette/middleware/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index e7a11fb..1734cfc 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -104,6 +104,7 @@ class BaseHTTPMiddleware:
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
+        exception_already_raised = False
 
         async def call_next(request: Request) -> Response:
             async def receive_or_disconnect() -> Message:
@@ -150,6 +151,8 @@ class BaseHTTPMiddleware:
                     message = await recv_stream.receive()
             except anyio.EndOfStream:
                 if app_exc is not None:
+                    nonlocal exception_already_raised
+                    exception_already_raised = True
                     raise app_exc
                 raise RuntimeError("No response returned.")
 
@@ -177,7 +180,7 @@ class BaseHTTPMiddleware:
                 response_sent.set()
                 recv_stream.close()
 
-        if app_exc is not None:
+        if app_exc is not None and not exception_already_raised:
             raise app_exc
 
     async def dispatch(self, request: Request, call_next: RequestResponseEndpoint) -> Response:
-- 
2.43.0


From d154da8f227b9d418255ed4072574cd325380504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 13/36] fix: BaseHTTPMiddleware does not complete a response
 its application failed to complete

---
 starlette/middleware/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 1734cfc..8175560 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -165,7 +165,12 @@ class BaseHTTPMiddleware:
                     if body:
                         yield body
                     if not message.get("more_body", False):
-                        break
+                        return
+                if app_exc is not None:
+                    # The response is incomplete: do not finish it.
+                    nonlocal exception_already_raised
+                    exception_already_raised = True
+                    raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
             response.raw_headers = message.get("headers", [])
-- 
2.43.0


From 16c2c4652b66d77e470bc27194b92fcd276f7909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 14/36] fix: do not let a route match a path with an extra
 trailing newline

---
 starlette/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index add7df0..73ed6a1 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -166,9 +166,9 @@ def compile_path(
     if is_host:
         # Align with `Host.matches()` behavior, which ignores port.
         hostname = path[idx:].split(":")[0]
-        path_regex += re.escape(hostname) + "$"
+        path_regex += re.escape(hostname) + r"\Z"
     else:
-        path_regex += re.escape(path[idx:]) + "$"
+        path_regex += re.escape(path[idx:]) + r"\Z"
 
     path_format += path[idx:]
 
-- 
2.43.0


From 28baa2edb893bd66a4d9be3124e093e3c103322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 15/36] fix: do not substitute placeholders inside url_path_for
 parameter values

---
 starlette/routing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 73ed6a1..7a5d10d 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -106,13 +106,15 @@ def replace_params(
     param_convertors: dict[str, Convertor[typing.Any]],
     path_params: dict[str, str],
 ) -> tuple[str, dict[str, str]]:
-    for key, value in list(path_params.items()):
-        if "{" + key + "}" in path:
-            convertor = param_convertors[key]
-            value = convertor.to_string(value)
-            path = path.replace("{" + key + "}", value)
-            path_params.pop(key)
-    return path, path_params
+    result = ""
+    idx = 0
+    for match in PARAM_REGEX.finditer(path):
+        key = match.group(1)
+        if key in path_params:
+            result += path[idx : match.start()]
+            result += param_convertors[key].to_string(path_params.pop(key))
+            idx = match.end()
+    return result + path[idx:], path_params
 
 
 # Match parameters in URL paths, eg. '{param}', and '{param:int}'
-- 
2.43.0


From dda958eaad02cf6b213d4542bcafd6b638411ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 16/36] fix: url_path_for below a Mount or Host needs all of
 its parameters

---
 starlette/routing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/routing.py b/starlette/routing.py
index 7a5d10d..0cf330b 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -432,6 +432,8 @@ class Mount(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if self.param_convertors.keys() - path_params.keys() - {"path"}:
+            raise NoMatchFound(name, path_params)
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path_params["path"] = path_params["path"].lstrip("/")
@@ -498,6 +500,8 @@ class Host(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if self.param_convertors.keys() - path_params.keys():
+            raise NoMatchFound(name, path_params)
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path = path_params.pop("path")
-- 
2.43.0


From 351eb90e94e767f4a6d407a041d38a339b831fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 17/36] fix: answer 404 for static files paths with null bytes

---
 starlette/staticfiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 637da64..7604f95 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -123,6 +123,9 @@ class StaticFiles:
                 raise HTTPException(status_code=404)
 
             raise exc
+        except ValueError:
+            # Null bytes can't be part of a file name.
+            raise HTTPException(status_code=404)
 
         if stat_result and stat.S_ISREG(stat_result.st_mode):
             # We have a static file to serve.
-- 
2.43.0


From fd8f0d9bba031fc66addc220630508fc0bd7f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 18/36] fix: ignore If-Modified-Since on static files requests
 with If-None-Match

---
 starlette/staticfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 7604f95..9f9692c 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -207,8 +207,8 @@ class StaticFiles:
         try:
             if_none_match = request_headers["if-none-match"]
             etag = response_headers["etag"]
-            if etag in [tag.strip(" W/") for tag in if_none_match.split(",")]:
-                return True
+            # If-Modified-Since is ignored for requests with If-None-Match.
+            return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]
         except KeyError:
             pass
 
-- 
2.43.0


From d649ee1fa5b7fabbdf2088e746c4688b1f047079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 19/36] fix: ignore the Range header for file responses whose
 status is not 200

---
 starlette/responses.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 9cb33a2..a7819e1 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -355,7 +355,11 @@ class FileResponse(Response):
         http_range = headers.get("range")
         http_if_range = headers.get("if-range")
 
-        if http_range is None or (http_if_range is not None and not self._should_use_range(http_if_range)):
+        if (
+            http_range is None
+            or self.status_code != 200
+            or (http_if_range is not None and not self._should_use_range(http_if_range))
+        ):
             await self._handle_simple(send, send_header_only)
         else:
             try:
-- 
2.43.0


From c50493a6ba08430ec64aae9edb528b0cf0d60c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 20/36] fix: serving a range does not change the headers of the
 FileResponse

---
 starlette/responses.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index a7819e1..0bb910e 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -394,9 +394,10 @@ class FileResponse(Response):
     async def _handle_single_range(
         self, send: Send, start: int, end: int, file_size: int, send_header_only: bool
     ) -> None:
-        self.headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
-        self.headers["content-length"] = str(end - start)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        headers = self.headers.mutablecopy()
+        headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
+        headers["content-length"] = str(end - start)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
@@ -421,9 +422,10 @@ class FileResponse(Response):
         content_length, header_generator = self.generate_multipart(
             ranges, boundary, file_size, self.headers["content-type"]
         )
-        self.headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
-        self.headers["content-length"] = str(content_length)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        headers = self.headers.mutablecopy()
+        headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
+        headers["content-length"] = str(content_length)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
-- 
2.43.0


From 4510e2598e64511a01b9187d0da12f2bdd40b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 21/36] fix: end a multi-range response when the file has
 become shorter

---
 starlette/responses.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index 0bb910e..676c56b 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -435,6 +435,9 @@ class FileResponse(Response):
                     await file.seek(start)
                     while start < end:
                         chunk = await file.read(min(self.chunk_size, end - start))
+                        if not chunk:
+                            # The file is shorter than it was when the response started.
+                            break
                         start += len(chunk)
                         await send({"type": "http.response.body", "body": chunk, "more_body": True})
                     await send({"type": "http.response.body", "body": b"\n", "more_body": True})
-- 
2.43.0


From 0e0e465c94d9cabcbb276eacea1a2ae0fea6d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 22/36] fix: parse Range headers in linear time, without errors
 for overlong numbers or suffixes

---
 starlette/responses.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 676c56b..bcfe77d 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -4,7 +4,6 @@ import hashlib
 import http.cookies
 import json
 import os
-import re
 import stat
 import typing
 import warnings
@@ -283,9 +282,6 @@ class RangeNotSatisfiable(Exception):
         self.max_size = max_size
 
 
-_RANGE_PATTERN = re.compile(r"(\d*)-(\d*)")
-
-
 class FileResponse(Response):
     chunk_size = 64 * 1024
 
@@ -465,14 +461,17 @@ class FileResponse(Response):
         if units != "bytes":
             raise MalformedRangeHeader("Only support bytes range")
 
-        ranges = [
-            (
-                int(_[0]) if _[0] else file_size - int(_[1]),
-                int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
-            )
-            for _ in _RANGE_PATTERN.findall(range_)
-            if _ != ("", "")
-        ]
+        for part in range_.split(","):
+            first, dash, last = (value.strip() for value in part.partition("-"))
+            if not dash or not (first + last).isdecimal():
+                continue
+            try:
+                start = int(first) if first else max(file_size - int(last), 0)
+                end = int(last) + 1 if first and last and int(last) < file_size else file_size
+            except ValueError:
+                # More digits than int() accepts.
+                continue
+            ranges.append((start, end))
 
         if len(ranges) == 0:
             raise MalformedRangeHeader("Range header: range must be requested")
-- 
2.43.0


From 219597de692a97427469427b7312e8921ce0e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 23/36] fix: merge all overlapping ranges of a Range header

---
 starlette/responses.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index bcfe77d..8dc6dba 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -487,17 +487,9 @@ class FileResponse(Response):
 
         # Merge ranges
         result: list[tuple[int, int]] = []
-        for start, end in ranges:
-            for p in range(len(result)):
-                p_start, p_end = result[p]
-                if start > p_end:
-                    continue
-                elif end < p_start:
-                    result.insert(p, (start, end))  # THIS IS NOT REACHED!
-                    break
-                else:
-                    result[p] = (min(start, p_start), max(end, p_end))
-                    break
+        for start, end in sorted(ranges):
+            if result and start <= result[-1][1]:
+                result[-1] = (result[-1][0], max(end, result[-1][1]))
             else:
                 result.append((start, end))
 
-- 
2.43.0


From 7e216623691d677ffb74646a264bf884af3dbb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 24/36] fix: QueryParams lookups agree with the list of values
 after key conversion

---
 starlette/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index f5d74d2..69f5f4d 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -395,7 +395,7 @@ class QueryParams(ImmutableMultiDict[str, str]):
         else:
             super().__init__(*args, **kwargs)  # type: ignore[arg-type]
         self._list = [(str(k), str(v)) for k, v in self._list]
-        self._dict = {str(k): str(v) for k, v in self._dict.items()}
+        self._dict = dict(self._list)
 
     def __str__(self) -> str:
         return urlencode(self._list)
-- 
2.43.0


From 696e8e491e31549e50638c07968b0a88c714dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 25/36] fix: add_vary_header keeps every existing Vary header

---
 starlette/datastructures.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 69f5f4d..751b1ae 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -640,10 +640,7 @@ class MutableHeaders(Headers):
         self._list.append((append_key, append_value))
 
     def add_vary_header(self, vary: str) -> None:
-        existing = self.get("vary")
-        if existing is not None:
-            vary = ", ".join([existing, vary])
-        self["vary"] = vary
+        self["vary"] = ", ".join([*self.getlist("vary"), vary])
 
 
 class State:
-- 
2.43.0


From 8eb5d03a0dd917d3f0056ebe4642a5a36af4c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 26/36] fix: generating a schema leaves the base schema
 unchanged

---
 starlette/schemas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index bfc40e2..4249e36 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -130,7 +130,8 @@ class SchemaGenerator(BaseSchemaGenerator):
 
     def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:
         schema = dict(self.base_schema)
-        schema.setdefault("paths", {})
+        # The paths are copied, so that the base schema stays as it was given.
+        schema["paths"] = {path: dict(operations) for path, operations in schema.get("paths", {}).items()}
         endpoints_info = self.get_endpoints(routes)
 
         for endpoint in endpoints_info:
-- 
2.43.0


From 75fc0eb1f207f7ef6ea3d8b87fb54fde3d170333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 27/36] fix: close the temporary files of a form whatever ends
 its parsing

---
 starlette/formparsers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 4551d68..a90bb4f 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -265,11 +265,12 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
-        except MultiPartException as exc:
-            # Close all the files if there was an error.
+        except BaseException:
+            # Close all the files if there was an error, including a client
+            # disconnect, a malformed body or a cancellation.
             for file in self._files_to_close_on_error:
                 file.close()
-            raise exc
+            raise
 
         parser.finalize()
         return FormData(self.items)
-- 
2.43.0


From 6481a3096e6a7b0367ec04f3c35fded7a5c7c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 28/36] fix: write to an upload in a worker thread when that
 rolls it over to disk

---
 starlette/datastructures.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 751b1ae..92fc6d3 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -434,14 +434,23 @@ class UploadFile:
         rolled_to_disk = getattr(self.file, "_rolled", True)
         return not rolled_to_disk
 
+    def _will_roll(self, size_to_add: int) -> bool:
+        # a file that is not in memory is already on disk
+        if not self._in_memory:
+            return True
+
+        # check for SpooledTemporaryFile._max_size
+        max_size = getattr(self.file, "_max_size", 0)
+        return bool(max_size) and self.file.tell() + size_to_add > max_size
+
     async def write(self, data: bytes) -> None:
         if self.size is not None:
             self.size += len(data)
 
-        if self._in_memory:
-            self.file.write(data)
-        else:
+        if self._will_roll(len(data)):
             await run_in_threadpool(self.file.write, data)
+        else:
+            self.file.write(data)
 
     async def read(self, size: int = -1) -> bytes:
         if self._in_memory:
-- 
2.43.0


From 9f97ed0cd19178a290fa5162e871268bd245406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 29/36] fix: leave the context given to TemplateResponse
 unchanged

---
 starlette/templating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/templating.py b/starlette/templating.py
index f764858..f60c698 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -201,6 +201,8 @@ class Jinja2Templates:
             media_type = kwargs.get("media_type")
             background = kwargs.get("background")
 
+        # the caller's dictionary may be shared between requests
+        context = dict(context)
         context.setdefault("request", request)
         for context_processor in self.context_processors:
             context.update(context_processor(request))
-- 
2.43.0


From db93d9b670b58e8da55bafaf1388920a4bbbacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 30/36] fix: accept None as the context of TemplateResponse

---
 starlette/templating.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/starlette/templating.py b/starlette/templating.py
index f60c698..a556581 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -172,7 +172,7 @@ class Jinja2Templates:
                 media_type = args[4] if len(args) > 4 else kwargs.get("media_type")
                 background = args[5] if len(args) > 5 else kwargs.get("background")
 
-                if "request" not in context:
+                if context is None or "request" not in context:
                     raise ValueError('context must include a "request" key')
                 request = context["request"]
             else:  # the first argument is a request instance (new style)
@@ -190,10 +190,10 @@ class Jinja2Templates:
                     'Replace `TemplateResponse(name, {"context": context})` by `TemplateResponse(request, name)`.',
                     DeprecationWarning,
                 )
-                if "request" not in kwargs.get("context", {}):
+                if "request" not in (kwargs.get("context") or {}):
                     raise ValueError('context must include a "request" key')
 
-            context = kwargs.get("context", {})
+            context = kwargs.get("context") or {}
             request = kwargs.get("request", context.get("request"))
             name = typing.cast(str, kwargs["name"])
             status_code = kwargs.get("status_code", 200)
@@ -202,7 +202,7 @@ class Jinja2Templates:
             background = kwargs.get("background")
 
         # the caller's dictionary may be shared between requests
-        context = dict(context)
+        context = dict(context or {})
         context.setdefault("request", request)
         for context_processor in self.context_processors:
             context.update(context_processor(request))
-- 
2.43.0


From f37985ef4aed1bcb870c0fbe5de433b5ea534cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 31/36] fix: replacing user info or port of a URL with an empty
 host no longer raises IndexError

---
 starlette/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 92fc6d3..ba1ee95 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -118,7 +118,7 @@ class URL:
                 netloc = self.netloc
                 _, _, hostname = netloc.rpartition("@")
 
-                if hostname[-1] != "]":
+                if not hostname.endswith("]"):
                     hostname = hostname.rsplit(":", 1)[0]
 
             netloc = hostname
-- 
2.43.0


From 13d410d54efbeed2aba58c7d3beb36bcee1533a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 32/36] fix: the URL of a connection puts an IPv6 server
 address in brackets

---
 starlette/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index ba1ee95..943f0ba 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -47,6 +47,8 @@ class URL:
                 url = path
             else:
                 host, port = server
+                if ":" in host:
+                    host = f"[{host}]"
                 default_port = {"http": 80, "https": 443, "ws": 80, "wss": 443}[scheme]
                 if port == default_port:
                     url = f"{scheme}://{host}{path}"
-- 
2.43.0


From 51385003ea5bdd9c83abc6998085af2165ed092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 33/36] fix: the test client does not decode the path of a
 request twice

---
 starlette/testclient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index d54025e..7158d99 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -10,7 +10,7 @@ import typing
 import warnings
 from concurrent.futures import Future
 from types import GeneratorType
-from urllib.parse import unquote, urljoin
+from urllib.parse import urljoin
 
 import anyio
 import anyio.abc
@@ -243,7 +243,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 subprotocols = [value.strip() for value in subprotocol.split(",")]
             scope = {
                 "type": "websocket",
-                "path": unquote(path),
+                "path": path,
                 "raw_path": raw_path.split(b"?", 1)[0],
                 "root_path": self.root_path,
                 "scheme": scheme,
@@ -262,7 +262,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "type": "http",
             "http_version": "1.1",
             "method": request.method,
-            "path": unquote(path),
+            "path": path,
             "raw_path": raw_path.split(b"?", 1)[0],
             "root_path": self.root_path,
             "scheme": scheme,
-- 
2.43.0


From 97f018045c15eaba3720642f55ce002e52516305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 34/36] fix: the test client hands on the bytes of request and
 response headers

---
 starlette/testclient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 7158d99..014c0b4 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -231,7 +231,7 @@ class _TestClientTransport(httpx.BaseTransport):
             headers = [(b"host", (f"{host}:{port}").encode())]
 
         # Include other request headers.
-        headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
+        headers += [(key.lower(), value) for key, value in request.headers.raw]
 
         scope: dict[str, typing.Any]
 
@@ -315,7 +315,7 @@ class _TestClientTransport(httpx.BaseTransport):
             if message["type"] == "http.response.start":
                 assert not response_started, 'Received multiple "http.response.start" messages.'
                 raw_kwargs["status_code"] = message["status"]
-                raw_kwargs["headers"] = [(key.decode(), value.decode()) for key, value in message.get("headers", [])]
+                raw_kwargs["headers"] = list(message.get("headers", []))
                 response_started = True
             elif message["type"] == "http.response.body":
                 assert response_started, 'Received "http.response.body" without "http.response.start".'
-- 
2.43.0


From d0addd6dc6fb77852f028fcf5e6cd8834abf78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 35/36] fix: the test client accepts denial responses without
 headers or body

---
 starlette/testclient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 014c0b4..3b5f53c 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -136,12 +136,12 @@ class WebSocketTestSession:
             raise WebSocketDisconnect(code=message.get("code", 1000), reason=message.get("reason", ""))
         elif message["type"] == "websocket.http.response.start":
             status_code: int = message["status"]
-            headers: list[tuple[bytes, bytes]] = message["headers"]
+            headers: list[tuple[bytes, bytes]] = message.get("headers", [])
             body: list[bytes] = []
             while True:
                 message = self.receive()
                 assert message["type"] == "websocket.http.response.body"
-                body.append(message["body"])
+                body.append(message.get("body", b""))
                 if not message.get("more_body", False):
                     break
             raise WebSocketDenialResponse(status_code=status_code, headers=headers, content=b"".join(body))
-- 
2.43.0


From 492b8d2dca527fdb0d5e1f387ab1838272a339c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 36/36] fix: the test client accepts an IPv6 address as the
 host of a URL

---
 starlette/testclient.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 3b5f53c..2c0c025 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -215,8 +215,9 @@ class _TestClientTransport(httpx.BaseTransport):
 
         default_port = {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme]
 
-        if ":" in netloc:
-            host, port_string = netloc.split(":", 1)
+        # An IPv6 address has colons of its own, within brackets.
+        if ":" in netloc and not netloc.endswith("]"):
+            host, port_string = netloc.rsplit(":", 1)
             port = int(port_string)
         else:
             host = netloc
@@ -250,7 +251,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 "query_string": query.encode(),
                 "headers": headers,
                 "client": self.client,
-                "server": [host, port],
+                "server": [host.strip("[]"), port],
                 "subprotocols": subprotocols,
                 "state": self.app_state.copy(),
                 "extensions": {"websocket.http.response": {}},
@@ -269,7 +270,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "query_string": query.encode(),
             "headers": headers,
             "client": self.client,
-            "server": [host, port],
+            "server": [host.strip("[]"), port],
             "extensions": {"http.response.debug": {}},
             "state": self.app_state.copy(),
         }
-- 
2.43.0

