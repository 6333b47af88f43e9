E = "endpoints.py"
BAD = [
    ("no-finally", E, '''        finally:
            await self.on_disconnect(websocket, close_code)
''', '''        await self.on_disconnect(websocket, close_code)
'''),
    ("always-1000", E, 'close_code = int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)', 'close_code = status.WS_1000_NORMAL_CLOSURE'),
    ("swallow", E, '''            close_code = status.WS_1011_INTERNAL_ERROR
            raise exc
''', '''            close_code = status.WS_1011_INTERNAL_ERROR
'''),
    ("code-none", E, 'int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)', 'int(message["code"])'),
    ("no-1011", E, '''            close_code = status.WS_1011_INTERNAL_ERROR
''', ''),
    ("no-break", E, '''                    close_code = int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)
                    break
''', '''                    close_code = int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)
                    return await self.on_disconnect(websocket, close_code)
'''),
    ("wrong-code", E, '''            if message.get("bytes") is None:
                await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
''', '''            if message.get("bytes") is None:
                await websocket.close(code=status.WS_1002_PROTOCOL_ERROR)
'''),
    ("no-close", E, '''            if message.get("text") is None:
                await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
''', '''            if message.get("text") is None:
'''),
    ("connect-in-try", E, '''        await self.on_connect(websocket)

        close_code = status.WS_1000_NORMAL_CLOSURE

        try:
''', '''        close_code = status.WS_1000_NORMAL_CLOSURE

        try:
            await self.on_connect(websocket)
'''),
    ("truthy-text", E, 'return message["text"] if message.get("text") is not None else message["bytes"]', 'return message.get("text") or message.get("bytes")'),
    ("not-in", E, 'if message.get("bytes") is None:', 'if "bytes" not in message:'),
    ("no-accept", E, '''        await websocket.accept()

    async def on_receive''', '''        await websocket.receive()

    async def on_receive'''),
    ("json-raw", E, 'return json.loads(text)', 'json.loads(text)\n                return text'),
    ("json-noclose", E, '''                await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                raise RuntimeError("Malformed''', '''                raise RuntimeError("Malformed'''),
    ("exc-only", E, '''        except Exception as exc:
            close_code''', '''        except RuntimeError as exc:
            close_code'''),
]
GOOD = [
    ("bare-raise", E, 'raise exc\n        finally', 'raise\n        finally'),
    ("match-type", E, '''                if message["type"] == "websocket.receive":
                    data = await self.decode(websocket, message)
                    await self.on_receive(websocket, data)
                elif message["type"] == "websocket.disconnect":  # pragma: no branch
                    close_code = int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)
                    break
''', '''                if message["type"] == "websocket.disconnect":
                    code = message.get("code")
                    if code:
                        close_code = int(code)
                    break
                await self.on_receive(websocket, await self.decode(websocket, message))
'''),
    ("loop-helper", E, ['''        try:
            while True:
                message = await websocket.receive()
''', '''                    close_code = int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)
                    break
'''], ['''        running = True
        try:
            while running:
                message = await websocket.receive()
''', '''                    close_code = int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)
                    running = False
''']),
    ("valueerror", E, 'except (json.decoder.JSONDecodeError, UnicodeDecodeError):', 'except ValueError:'),
    ("decode-helper", E, '''            if message.get("text") is None:
                await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                raise RuntimeError("Expected text websocket messages, but got bytes")
            return message["text"]
''', '''            text = message.get("text")
            if text is not None:
                return text
            await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
            raise RuntimeError("Expected text websocket messages, but got bytes")
'''),
]
