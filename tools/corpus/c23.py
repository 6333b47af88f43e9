D, CO, U, B, EH, E, EP, R, RO, S, W = "datastructures.py", "concurrency.py", "_utils.py", "background.py", "_exception_handler.py", "middleware/errors.py", "endpoints.py", "responses.py", "routing.py", "staticfiles.py", "middleware/wsgi.py"
BAD = [
    ("roll-inline", D, "if self._will_roll(len(data)):", "if not self._in_memory:"),
    ("roll-off-by", D, "self.file.tell() + size_to_add > max_size", "self.file.tell() > max_size"),
    ("roll-size", D, "self.file.tell() + size_to_add > max_size", "size_to_add > max_size"),
    ("default-memory", D, 'getattr(self.file, "_rolled", True)', 'getattr(self.file, "_rolled", False)'),
    ("read-inline", D, "        if self._in_memory:\n            return self.file.read(size)\n        return await run_in_threadpool(self.file.read, size)", "        return self.file.read(size)"),
    ("read-size-lost", D, "return await run_in_threadpool(self.file.read, size)", "return await run_in_threadpool(self.file.read)"),
    ("seek-inverted", D, "        if self._in_memory:\n            self.file.seek(offset)\n        else:\n            await run_in_threadpool(self.file.seek, offset)", "        if not self._in_memory:\n            self.file.seek(offset)\n        else:\n            await run_in_threadpool(self.file.seek, offset)"),
    ("close-inline", D, "            await run_in_threadpool(self.file.close)", "            self.file.close()"),
    ("size-none", D, "        if self.size is not None:\n            self.size += len(data)", "        self.size = (self.size or 0) + len(data)"),
    ("size-late", D, "            self.size += len(data)\n", "            self.size = len(data)\n"),
    ("in-memory-cached", D, "        self.headers = headers or Headers()\n\n    @property\n    def content_type", "        self.headers = headers or Headers()\n        self._mem = not getattr(file, \"_rolled\", True)\n\n    @property\n    def content_type") if False else ("write-unawaited", D, "            await run_in_threadpool(self.file.write, data)", "            run_in_threadpool(self.file.write, data)"),
    ("iter-inline", CO, "            yield await anyio.to_thread.run_sync(_next, as_iterator)\n        except _StopIteration:", "            yield _next(as_iterator)\n        except _StopIteration:"),
    ("iter-batch", CO, "    as_iterator = iter(iterator)\n    while True:\n        try:\n            yield await anyio.to_thread.run_sync(_next, as_iterator)\n        except _StopIteration:\n            break", "    items = await anyio.to_thread.run_sync(list, iterator)\n    for item in items:\n        yield item"),
    ("iter-stopiteration", CO, "    try:\n        return next(iterator)\n    except StopIteration:\n        raise _StopIteration", "    return next(iterator)"),
    ("iter-any-error-ends", CO, "        except _StopIteration:\n            break", "        except Exception:\n            break"),
    ("pool-kwargs", CO, "func = functools.partial(func, *args, **kwargs)", "func = functools.partial(func, *args)"),
    ("pool-inline", CO, "return await anyio.to_thread.run_sync(func)", "return func()"),
    ("pool-no-return", CO, "return await anyio.to_thread.run_sync(func)", "await anyio.to_thread.run_sync(func)"),
    ("async-partial", U, "    while isinstance(obj, functools.partial):\n        obj = obj.func\n", ""),
    ("async-call", U, "return inspect.iscoroutinefunction(obj) or (callable(obj) and inspect.iscoroutinefunction(obj.__call__))", "return inspect.iscoroutinefunction(obj)"),
    ("task-inline", B, "await run_in_threadpool(self.func, *self.args, **self.kwargs)", "self.func(*self.args, **self.kwargs)"),
    ("task-class", B, "self.is_async = is_async_callable(func)", "import inspect\n        self.is_async = inspect.iscoroutinefunction(func)"),
    ("handler-inline", EH, "response = await run_in_threadpool(handler, conn, exc)", "response = handler(conn, exc)"),
    ("handler-coro", EH, "if is_async_callable(handler):", "import inspect\n            if inspect.iscoroutinefunction(handler):"),
    ("500-inline", E, "response = await run_in_threadpool(self.handler, request, exc)", "response = self.handler(request, exc)"),
    ("verb-inline", EP, "response = await run_in_threadpool(handler, request)", "response = handler(request)"),
    ("stat-inline", R, "stat_result = await anyio.to_thread.run_sync(os.stat, self.path)", "stat_result = os.stat(self.path)"),
    ("open-inline", R, "            async with await anyio.open_file(self.path, mode=\"rb\") as file:\n                more_body = True\n                while more_body:\n                    chunk = await file.read(self.chunk_size)", "            with open(self.path, mode=\"rb\") as file:\n                more_body = True\n                while more_body:\n                    chunk = file.read(self.chunk_size)"),
    ("endpoint-inline", RO, "func if is_async_callable(func) else functools.partial(run_in_threadpool, func)", "func if is_async_callable(func) else _inline(func)"),
    ("lookup-inline", S, "full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, path)", "full_path, stat_result = self.lookup_path(path)"),
    ("index-inline", S, "full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, index_path)", "full_path, stat_result = self.lookup_path(index_path)"),
    ("404-inline", S, 'full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, "404.html")', 'full_path, stat_result = self.lookup_path("404.html")'),
    ("config-inline", S, "stat_result = await anyio.to_thread.run_sync(os.stat, self.directory)", "stat_result = os.stat(self.directory)"),
    ("file-exists", S, "    def file_response(", "    def is_there(self, p: str) -> bool:\n        return os.path.exists(p)\n\n    def file_response(") if False else ("wsgi-inline", W, "await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)", "self.wsgi(environ, self.start_response)"),
    ("isdir-late", S, "        if self.follow_symlink", "        if self.follow_symlink") if False else ("not-modified-stat", S, "        request_headers = Headers(scope=scope)\n", "        request_headers = Headers(scope=scope)\n        if not os.path.isfile(full_path):\n            raise HTTPException(status_code=404)\n"),
    ("sync-body-list", R, "            self.body_iterator = iterate_in_threadpool(content)", "            self.body_iterator = _aiter(content)"),
]
GOOD = [
    ("always-thread", D, "        if self._in_memory:\n            return self.file.read(size)\n        return await run_in_threadpool(self.file.read, size)", "        return await run_in_threadpool(self.file.read, size)"),
    ("write-early", D, "        if self._will_roll(len(data)):\n            await run_in_threadpool(self.file.write, data)\n        else:\n            self.file.write(data)", "        if not self._will_roll(len(data)):\n            self.file.write(data)\n            return\n        await run_in_threadpool(self.file.write, data)"),
    ("call-helper", D, ["        if self._in_memory:\n            self.file.seek(offset)\n        else:\n            await run_in_threadpool(self.file.seek, offset)", "        if self._in_memory:\n            self.file.close()\n        else:\n            await run_in_threadpool(self.file.close)"],
        ["        await self._call(self.file.seek, offset)", "        await self._call(self.file.close)\n\n    async def _call(self, method: typing.Any, *args: typing.Any) -> typing.Any:\n        if self._in_memory:\n            return method(*args)\n        return await run_in_threadpool(method, *args)"]),
    ("iter-sentinel", CO, "    as_iterator = iter(iterator)\n    while True:\n        try:\n            yield await anyio.to_thread.run_sync(_next, as_iterator)\n        except _StopIteration:\n            break", "    as_iterator = iter(iterator)\n    end = object()\n    while True:\n        item = await anyio.to_thread.run_sync(next, as_iterator, end)\n        if item is end:\n            return\n        yield item"),
    ("pool-lambda", CO, "    func = functools.partial(func, *args, **kwargs)\n    return await anyio.to_thread.run_sync(func)", "    return await anyio.to_thread.run_sync(lambda: func(*args, **kwargs))"),
    ("pool-cancel", CO, "return await anyio.to_thread.run_sync(func)", "return await anyio.to_thread.run_sync(func, abandon_on_cancel=False)"),
    ("async-rec", U, "    while isinstance(obj, functools.partial):\n        obj = obj.func\n\n    return inspect", "    if isinstance(obj, functools.partial):\n        return is_async_callable(obj.func)\n\n    return inspect"),
    ("task-lazy", B, "        if self.is_async:\n            await self.func(*self.args, **self.kwargs)\n        else:\n            await run_in_threadpool(self.func, *self.args, **self.kwargs)", "        if not self.is_async:\n            await run_in_threadpool(self.func, *self.args, **self.kwargs)\n            return\n        await self.func(*self.args, **self.kwargs)"),
    ("stat-pool", R, "stat_result = await anyio.to_thread.run_sync(os.stat, self.path)", "stat_result = await anyio.to_thread.run_sync(lambda: os.stat(self.path))"),
    ("lookup-helper", S, "full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, path)", "found = await anyio.to_thread.run_sync(self.lookup_path, path)\n            full_path, stat_result = found"),
    ("endpoint-def", RO, "func if is_async_callable(func) else functools.partial(run_in_threadpool, func)", "func if is_async_callable(func) else (lambda request: run_in_threadpool(func, request))"),
]
