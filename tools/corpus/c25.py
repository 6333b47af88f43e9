F = "middleware/base.py"
BAD = [
    ("body-not-replayed", F, 'if getattr(self, "_body", None) is not None:', 'if getattr(self, "_form", None) is not None:'),
    ("swallow", F, "        if app_exc is not None and not exception_already_raised:\n            raise app_exc\n", ""),
    ("reraise", F, "if app_exc is not None and not exception_already_raised:", "if app_exc is not None:"),
    ("no-capture", F, "                    except Exception as exc:\n                        app_exc = exc\n", "                    except Exception as exc:\n                        pass\n"),
    ("no-close", F, "                with send_stream:\n                    try:\n                        await self.app(scope, receive_or_disconnect, send_no_error)\n                    except Exception as exc:\n                        app_exc = exc\n", "                try:\n                    await self.app(scope, receive_or_disconnect, send_no_error)\n                except Exception as exc:\n                    app_exc = exc\n"),
    ("no-set", F, "                response_sent.set()\n", ""),
    ("no-recv-close", F, "                recv_stream.close()\n", ""),
    ("no-suppress", F, "                try:\n                    await send_stream.send(message)\n                except anyio.BrokenResourceError:\n                    # recv_stream has been closed, i.e. response_sent has been set.\n                    return\n", "                await send_stream.send(message)\n"),
    ("no-collapse", F, "with recv_stream, send_stream, collapse_excgroups():", "with recv_stream, send_stream:"),
    ("receive-raw", F, "await self.app(scope, receive_or_disconnect, send_no_error)", "await self.app(scope, receive, send_no_error)"),
    ("receive-nowait", F, "await self.app(scope, receive_or_disconnect, send_no_error)", "await self.app(scope, wrapped_receive, send_no_error)"),
    ("headers-lost", F, '            response.raw_headers = message.get("headers", [])\n', ""),
    ("headers-key", F, 'message.get("headers", [])', 'message["headers"]'),
    ("status", F, 'status_code=message["status"]', 'status_code=message.get("status_code", 200)'),
    ("debug-lost", F, "content=body_stream(), info=info)", "content=body_stream())"),
    ("debug-not-skipped", F, 'if message["type"] == "http.response.debug" and info is not None:\n                    message = await recv_stream.receive()\n', 'pass\n'),
    ("first-chunk-only", F, '                    if not message.get("more_body", False):\n                        return\n', "                    return\n"),
    ("last-chunk-lost", F, '                    if body:\n                        yield body\n                    if not message.get("more_body", False):\n                        return\n', '                    if not message.get("more_body", False):\n                        return\n                    if body:\n                        yield body\n'),
    ("complete-truncated", F, "                if app_exc is not None:\n                    # The response is incomplete: do not finish it.\n                    nonlocal exception_already_raised\n                    exception_already_raised = True\n                    raise app_exc\n", ""),
    ("final-missing", F, '        await send({"type": "http.response.body", "body": b"", "more_body": False})\n', ""),
    ("final-more", F, 'await send({"type": "http.response.body", "body": chunk, "more_body": True})', 'await send({"type": "http.response.body", "body": chunk, "more_body": False})'),
    ("body-more", F, '                "body": chunk,\n                    "more_body": not self._stream_consumed', '                "body": chunk,\n                    "more_body": True'),
    ("consumed-not-empty", F, "        elif self._stream_consumed:\n", "        elif self._stream_consumed and self._is_disconnected:\n"),
    ("replay-twice", F, "            # body() was called, we return it even if the client disconnected\n            self._wrapped_rcv_consumed = True\n", ""),
    ("no-consumed-mark", F, "                self._wrapped_rcv_consumed = self._stream_consumed\n", ""),
    ("no-response-ok", F, '                raise RuntimeError("No response returned.")', '                return Response(status_code=500)'),
    ("wrapped-not-disconnected", F, "            except ClientDisconnect:\n                self._wrapped_rcv_disconnected = True\n", "            except ClientDisconnect:\n"),
]
GOOD = [
    ("info-inline", F, '                info = message.get("info", None)\n', '                info = message.get("info")\n'),
    ("stream-direct", F, "                stream = self.stream()\n                chunk = await stream.__anext__()\n", "                chunk = await self.stream().__anext__()\n"),
    ("try-finally", F, "                response = await self.dispatch_func(request, call_next)\n                await response(scope, wrapped_receive, send)\n                response_sent.set()\n                recv_stream.close()\n",
     "                response = await self.dispatch_func(request, call_next)\n                await response(scope, wrapped_receive, send)\n                recv_stream.close()\n                response_sent.set()\n"),
    ("suppress", F, ["import typing\n", "                try:\n                    await send_stream.send(message)\n                except anyio.BrokenResourceError:\n                    # recv_stream has been closed, i.e. response_sent has been set.\n                    return\n"], ["import contextlib\nimport typing\n", "                with contextlib.suppress(anyio.BrokenResourceError):\n                    await send_stream.send(message)\n"]),
    ("unpack", F, "        streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()\n        send_stream, recv_stream = streams\n", "        send_stream, recv_stream = anyio.create_memory_object_stream[Message]()\n"),
    ("nested-with", F, "        with recv_stream, send_stream, collapse_excgroups():\n            async with anyio.create_task_group() as task_group:\n                response = await self.dispatch_func(request, call_next)\n                await response(scope, wrapped_receive, send)\n                response_sent.set()\n                recv_stream.close()\n",
     "        with recv_stream, send_stream:\n            with collapse_excgroups():\n                async with anyio.create_task_group() as task_group:\n                    response = await self.dispatch_func(request, call_next)\n                    await response(scope, wrapped_receive, send)\n                    response_sent.set()\n                    recv_stream.close()\n"),
    ("ifnot", F, "                    body = message.get(\"body\", b\"\")\n                    if body:\n                        yield body\n", "                    if message.get(\"body\"):\n                        yield message[\"body\"]\n"),
    ("while-loop", F, "                async for message in recv_stream:\n                    assert", "                while True:\n                    try:\n                        message = await recv_stream.receive()\n                    except anyio.EndOfStream:\n                        break\n                    assert"),
    ("helper-message", F, [
        "class _CachedRequest(Request):",
        '                self._wrapped_rcv_disconnected = True\n                return {"type": "http.disconnect"}\n            # we don'], [
        "def _disconnect() -> Message:\n    return {\"type\": \"http.disconnect\"}\n\n\nclass _CachedRequest(Request):",
        '                self._wrapped_rcv_disconnected = True\n                return _disconnect()\n            # we don']),
    ("body-not-replayed", F, 'if getattr(self, "_body", None) is not None:', 'if getattr(self, "_body", None):'),
]
