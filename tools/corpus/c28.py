F = "testclient.py"
def b(name, old, new):
    return (name, F, old, new)
BAD = [
    ('am-wss-port', 'testclient.py', '"wss": 443', '"wss": 80'),
    b("raw-path-query", 'raw_path.split(b"?", 1)[0],\n                "root_path"', 'raw_path,\n                "root_path"'),
    b("raw-path-query-http", 'raw_path.split(b"?", 1)[0],\n            "root_path"', 'raw_path,\n            "root_path"'),
    b("path-raw", '"http_version": "1.1",\n            "method": request.method,\n            "path": path', '"http_version": "1.1",\n            "method": request.method,\n            "path": raw_path.decode().split("?")[0]'),
    b("default-port", '"https": 443, "wss"', '"https": 80, "wss"'),
    b("port-ignored", "port = int(port_string)", "port = default_port"),
    b("port-text", "port = int(port_string)", "port = port_string"),
    b("headers-folded", "for key, value in request.headers.raw]", "for key, value in {k: v for k, v in request.headers.raw}.items()]"),
    b("headers-case", "(key.lower(), value)", "(key, value)"),
    b("host-twice", 'if "host" in request.headers:', 'if "Host:" in request.headers:'),
    b("state-shared", '"extensions": {"http.response.debug": {}},\n            "state": self.app_state.copy(),', '"extensions": {"http.response.debug": {}},\n            "state": self.app_state,'),
    b("state-shared-ws", '"state": self.app_state.copy(),\n                "extensions"', '"state": self.app_state,\n                "extensions"'),
    b("no-state", '            "state": self.app_state.copy(),\n        }', '            "state": {},\n        }'),
    b("root-path-ws", '"root_path": self.root_path,\n                "scheme"', '"root_path": "",\n                "scheme"'),
    b("client-dropped", '"client": self.client,\n            "server"', '"client": ("testclient", 50000),\n            "server"'),
    b("subprotocol-space", "[value.strip() for value in subprotocol.split(\",\")]", "subprotocol.split(\",\")"),
    b("early-disconnect", "                if not response_complete.is_set():\n                    await response_complete.wait()\n", ""),
    b("body-forever", "            request_complete = True\n            return {\"type\": \"http.request\", \"body\": body_bytes}", "            return {\"type\": \"http.request\", \"body\": body_bytes}"),
    b("head-body", 'if request.method != "HEAD":', 'if True:'),
    b("more-default", 'more_body = message.get("more_body", False)\n                if request', 'more_body = message.get("more_body", True)\n                if request'),
    b("headers-required", 'list(message.get("headers", []))', 'list(message["headers"])'),
    b("headers-dict", 'raw_kwargs["headers"] = list(message.get("headers", []))', 'raw_kwargs["headers"] = list(dict(message.get("headers", [])).items())'),
    b("two-starts", 'assert not response_started, \'Received multiple "http.response.start" messages.\'', "pass"),
    b("no-order", 'assert response_started, \'Received "http.response.body" without "http.response.start".\'', "pass"),
    b("no-end", "assert not response_complete.is_set(), 'Received \"http.response.body\" after response completed.'", "pass"),
    b("no-rewind", '                    raw_kwargs["stream"].seek(0)\n', ""),
    b("swallow", "        except BaseException as exc:\n            if self.raise_server_exceptions:\n                raise exc\n", "        except BaseException as exc:\n            if self.raise_server_exceptions and not response_started:\n                raise exc\n"),
    b("always-raise", "            if self.raise_server_exceptions:\n                raise exc", "            raise exc"),
    b("status-500-always", "        elif not response_started:\n            raw_kwargs", "        elif not response_complete.is_set():\n            raw_kwargs"),
    b("template-lost", "            response.context = context  # type: ignore[attr-defined]\n", ""),
    b("new-portal", "        if self.portal is not None:\n            yield self.portal", "        if False:\n            yield self.portal"),
    b("portal-kept", "            def reset_portal() -> None:\n                self.portal = None", "            def reset_portal() -> None:\n                pass"),
    b("backend-ignored", "with anyio.from_thread.start_blocking_portal(**self.async_backend) as portal:", "with anyio.from_thread.start_blocking_portal() as portal:"),
    b("ws-text-bytes", 'self.send({"type": "websocket.receive", "bytes": data})', 'self.send({"type": "websocket.receive", "text": data})'),
    b("json-binary", 'self.send({"type": "websocket.receive", "bytes": text.encode("utf-8")})', 'self.send({"type": "websocket.receive", "text": text})'),
    b("close-code", '"websocket.disconnect", "code": code,', '"websocket.disconnect", "code": 1000,'),
    b("close-reason-lost", 'reason=message.get("reason", ""))', 'reason="")'),
    b("close-default", 'code=message.get("code", 1000)', 'code=message.get("code", 1005)'),
    b("no-raise-on-close", "        message = self.receive()\n        self._raise_on_close(message)\n        return typing.cast(bytes", "        message = self.receive()\n        return typing.cast(bytes"),
    b("denial-first-part", '                if not message.get("more_body", False):\n                    break\n            raise', "                break\n            raise"),
    b("denial-status", "WebSocketDenialResponse(status_code=status_code,", "WebSocketDenialResponse(status_code=403 if status_code == 403 else 400,") if False else b("denial-headers", "status_code=status_code, headers=headers,", "status_code=status_code, headers=[],"),
    b("accept-unchecked", "            self._raise_on_close(message)\n            self.accepted_subprotocol", "            self.accepted_subprotocol"),
    b("no-connect", '            self.send({"type": "websocket.connect"})\n', ""),
    b("no-leave", "            stack.callback(self.close, 1000)\n", ""),
    b("no-result", "            stack.callback(fut.result)\n", ""),
    b("no-cancel", "            stack.callback(portal.call, cs.cancel)\n", ""),
    b("subprotocols-sep", '", ".join(subprotocols)', '" ".join(subprotocols)'),
    b("lifespan-state", 'scope = {"type": "lifespan", "state": self.app_state}', 'scope = {"type": "lifespan", "state": self.app_state.copy()}'),
    b("lifespan-failure-silent", '        if message["type"] == "lifespan.shutdown.failed":\n            await receive()', '        if message["type"] == "lifespan.shutdown.failed":\n            pass'),
    b("startup-failure-silent", '        if message["type"] == "lifespan.startup.failed":\n            await receive()', '        if message["type"] == "lifespan.startup.failed":\n            pass'),
    b("no-shutdown", '        await self.stream_receive.send({"type": "lifespan.shutdown"})\n', ""),
    b("follow-redirects-lost", '        return super().put(\n            url,\n            content=content,\n            data=data,\n            files=files,\n            json=json,\n            params=params,\n            headers=headers,\n            cookies=cookies,\n            auth=auth,\n            follow_redirects=follow_redirects,', '        return super().put(\n            url,\n            content=content,\n            data=data,\n            files=files,\n            json=json,\n            params=params,\n            headers=headers,\n            cookies=cookies,\n            auth=auth,'),
    b("user-agent-forced", 'headers.setdefault("user-agent", "testclient")', 'headers["user-agent"] = "testclient"'),
    b("base-url", "            base_url=base_url,\n", '            base_url="http://testserver",\n'),
]
GOOD = [
    b("partition", 'raw_path.split(b"?", 1)[0],\n            "root_path"', 'raw_path.partition(b"?")[0],\n            "root_path"'),
    b("server-tuple", '"server": [host.strip("[]"), port],\n            "extensions"', '"server": (host.strip("[]"), port),\n            "extensions"'),
    b("join-body", "            body: list[bytes] = []\n", "            body = []\n"),
    b("helper", "                raw_kwargs[\"status_code\"] = message[\"status\"]\n", "                status = message[\"status\"]\n                raw_kwargs.update(status_code=status)\n"),
    b("inline-flag", "            if request_complete:\n                if not response_complete.is_set():\n                    await response_complete.wait()\n                return", "            if request_complete:\n                await response_complete.wait()\n                return"),
    b("dict-copy", '"extensions": {"http.response.debug": {}},\n            "state": self.app_state.copy(),', '"extensions": {"http.response.debug": {}},\n            "state": dict(self.app_state),'),
    b("more-body-sent", 'return {"type": "http.request", "body": body_bytes}', 'return {"type": "http.request", "body": body_bytes, "more_body": False}'),
    b("getattr-close", "message[\"type\"] == \"websocket.close\":\n", "message.get(\"type\") == \"websocket.close\":\n"),
    b("portal-finally", "            with anyio.from_thread.start_blocking_portal(**self.async_backend) as portal:\n                yield portal", "            with anyio.from_thread.start_blocking_portal(**self.async_backend) as portal:\n                try:\n                    yield portal\n                finally:\n                    pass"),
    b("portal-local", "        if self.portal is not None:\n            yield self.portal\n", "        current = self.portal\n        if current is not None:\n            yield current\n"),
    b("deny-loop", "            while True:\n                message = self.receive()\n                assert message[\"type\"] == \"websocket.http.response.body\"\n                body.append(message.get(\"body\", b\"\"))\n                if not message.get(\"more_body\", False):\n                    break\n", "            more = True\n            while more:\n                message = self.receive()\n                assert message[\"type\"] == \"websocket.http.response.body\"\n                body.append(message.get(\"body\", b\"\"))\n                more = message.get(\"more_body\", False)\n"),
    b("json-helper", "        if mode == \"text\":\n            text = message[\"text\"]\n        else:\n            text = message[\"bytes\"].decode(\"utf-8\")\n        return json.loads(text)", "        if mode != \"text\":\n            return json.loads(message[\"bytes\"].decode())\n        return json.loads(message[\"text\"])"),
    b("exit-renamed", "            self.exit_stack = stack.pop_all()\n            return self\n\n    def __exit__(self, *args: typing.Any) -> bool | None:\n        return self.exit_stack.__exit__(*args)\n\n    async def _run", "            self._leave = stack.pop_all()\n            return self\n\n    def __exit__(self, *args: typing.Any) -> bool | None:\n        return self._leave.__exit__(*args)\n\n    async def _run"),
    b("subprotocols-loop", "subprotocols = [value.strip() for value in subprotocol.split(\",\")]", "subprotocols = []\n                for value in subprotocol.split(\",\"):\n                    subprotocols.append(value.strip())"),
    b("scope-common", "        scope = {\n            \"type\": \"http\",\n            \"http_version\": \"1.1\",\n            \"method\": request.method,\n", "        kind = {\"type\": \"http\", \"http_version\": \"1.1\"}\n        scope = {\n            **kind,\n            \"method\": request.method,\n"),
]
