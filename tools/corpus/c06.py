F = "middleware/errors.py"
BAD = [
    ("no-reraise", F, '''            # to optionally raise the error within the test case.
            raise exc''', '''            # to optionally raise the error within the test case.
            if response_started or self.handler is None:
                raise exc'''),
    ("raise-only-debug", F, '''            # to optionally raise the error within the test case.
            raise exc''', '''            # to optionally raise the error within the test case.
            raise RuntimeError("Server error") from exc'''),
    ("started", F, '''            if not response_started:
                await''', '''            if not response_started or self.debug:
                await'''),
    ("started-body", F, 'if message["type"] == "http.response.start":', 'if message["type"] == "http.response.body":'),
    ("no-exc-debug", F, 'if not response_started:\n', 'if not response_started and not self.debug:\n'),
    ("handler-in-debug", F, 'if self.debug:', 'if self.debug and self.handler is None:'),
    ("leak", F, 'return PlainTextResponse("Internal Server Error", status_code=500)', 'return PlainTextResponse(f"Internal Server Error: {exc}", status_code=500)'),
    ("leak-type", F, 'return PlainTextResponse("Internal Server Error", status_code=500)', 'return PlainTextResponse("Internal Server Error", status_code=500, headers={"X-Error": type(exc).__name__})'),
    ("status", F, 'return HTMLResponse(content, status_code=500)', 'return HTMLResponse(content)'),
    ("unescaped-line", F, 'html.escape(line).replace', 'line.replace'),
    ("unescaped-fn", F, 'html.escape(frame.function)', 'frame.function'),
    ("unescaped-file", F, 'html.escape(frame.filename)', 'frame.filename'),
    ("unescaped-err", F, 'html.escape(str(traceback_obj))', 'str(traceback_obj)'),
    ("unescaped-type", F, 'html.escape(exc_type_str)', 'exc_type_str'),
    ("unescape-after", F, 'html.escape(line).replace(" ", "&nbsp")', 'html.unescape(html.escape(line))'),
    ("plain-as-html", F, 'return PlainTextResponse(content, status_code=500)', 'return HTMLResponse(content, status_code=500)'),
    ("sync", F, 'response = await run_in_threadpool(self.handler, request, exc)', 'response = self.handler(request, exc)'),
    ("before-send", F, '''                response_started = True
            await send(message)''', '''                await send(message)
                response_started = True
                return
            if message["type"] == "http.response.debug":
                response_started = True
            await send(message)'''),
]
GOOD = [
    ("escape-partial", F, '''html.escape(line).replace(" ", "&nbsp")''', '''html.escape(line.rstrip()).replace(" ", "&nbsp;")'''),
    ("finally", F, '''            # to optionally raise the error within the test case.
            raise exc''', '''            # to optionally raise the error within the test case.
            raise'''),
    ("method", F, ['''            if self.debug:
                # In debug mode, return traceback responses.
                response = self.debug_response(request, exc)
            elif self.handler is None:
                # Use our default 500 error handler.
                response = self.error_response(request, exc)
            else:
                # Use an installed 500 error handler.
                if is_async_callable(self.handler):
                    response = await self.handler(request, exc)
                else:
                    response = await run_in_threadpool(self.handler, request, exc)
''', '''    def format_line('''], ['''            response = await self._build(request, exc)
''', '''    async def _build(self, request: Request, exc: Exception) -> typing.Any:
        if self.debug:
            return self.debug_response(request, exc)
        handler = self.handler
        if handler is None:
            return self.error_response(request, exc)
        if is_async_callable(handler):
            return await handler(request, exc)
        return await run_in_threadpool(handler, request, exc)

    def format_line(''']),
    ("join", F, '''            for frame in reversed(frames):
                exc_html += self.generate_frame_html(frame, is_collapsed)
                is_collapsed = True
''', '''            parts = []
            for frame in reversed(frames):
                parts.append(self.generate_frame_html(frame, is_collapsed))
                is_collapsed = True
            exc_html = "".join(parts)
'''),
    ("fstring", F, '''return TEMPLATE.format(styles=STYLES, js=JS, error=error, exc_html=exc_html)''', '''page = TEMPLATE.format(styles=STYLES, js=JS, error=error, exc_html=exc_html)
        return f"{page}"'''),
    ("only-unstarted", F, '''        except Exception as exc:
            request = Request(scope)
''', '''        except Exception as exc:
            if response_started and self.debug:
                raise
            request = Request(scope)
'''),
    ("send-name", F, '''        async def _send(message: Message) -> None:
            nonlocal response_started, send

            if message["type"] == "http.response.start":
                response_started = True
            await send(message)
''', '''        async def _send(message: Message) -> None:
            nonlocal response_started
            response_started = response_started or message["type"] == "http.response.start"
            await send(message)
'''),
]
