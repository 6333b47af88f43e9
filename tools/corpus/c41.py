B, X, A, D, S, M, K = "background.py", "exceptions.py", "authentication.py", "datastructures.py", "status.py", "middleware/__init__.py", "concurrency.py"
BAD = [
    ("const-421", S, "HTTP_421_MISDIRECTED_REQUEST = 421", "HTTP_421_MISDIRECTED_REQUEST = 422"),
    ("const-ws", S, "WS_1005_NO_STATUS_RCVD = 1005", "WS_1005_NO_STATUS_RCVD = 1006"),
    ("const-gone", S, "HTTP_410_GONE = 410\n", ""),
    ("task-is-async", B, "self.is_async = is_async_callable(func)", "self.is_async = False"),
    ("task-kwargs", B, "await run_in_threadpool(self.func, *self.args, **self.kwargs)", "await run_in_threadpool(self.func, *self.args)"),
    ("task-async-args", B, "await self.func(*self.args, **self.kwargs)", "await self.func(**self.kwargs)"),
    ("tasks-alias", B, "list(tasks) if tasks else []", "tasks if tasks else []"),
    ("tasks-snapshot", B, "for task in self.tasks:", "for task in list(self.tasks):"),
    ("tasks-reversed", B, "for task in self.tasks:", "for task in reversed(self.tasks):"),
    ("tasks-swallow", B, "            await task()\n", "            try:\n                await task()\n            except Exception:\n                pass\n"),
    ("tasks-front", B, "self.tasks.append(task)", "self.tasks.insert(0, task)"),
    ("tasks-kwargs", B, "task = BackgroundTask(func, *args, **kwargs)", "task = BackgroundTask(func, *args)"),
    ("exc-detail-falsy", X, "if detail is None:", "if not detail:"),
    ("exc-headers", X, "self.headers = headers", "self.headers = headers or {}"),
    ("exc-str", X, 'return f"{self.status_code}: {self.detail}"', 'return f"{self.detail}"'),
    ("exc-repr-class", X, 'return f"{class_name}(status_code={self.status_code!r}, detail={self.detail!r})"', 'return f"HTTPException(status_code={self.status_code!r}, detail={self.detail!r})"'),
    ("exc-ws-reason", X, 'self.reason = reason or ""', 'self.reason = reason'),
    ("scopes-alias", A, "[] if scopes is None else list(scopes)", "[] if scopes is None else scopes"),
    ("scopes-dup", A, "[] if scopes is None else list(scopes)", "[] if scopes is None else sorted(set(scopes))"),
    ("simple-auth", A, "    def is_authenticated(self) -> bool:\n        return True", "    def is_authenticated(self) -> bool:\n        return bool(self.username)"),
    ("unauth", A, "    def is_authenticated(self) -> bool:\n        return False", "    def is_authenticated(self) -> bool:\n        return True"),
    ("css-strip", D, "[item.strip() for item in splitter]", "[item for item in splitter]"),
    ("css-ws", D, 'splitter.whitespace = ","', 'splitter.whitespace = ", "'),
    ("css-posix", D, "shlex(value, posix=True)", "shlex(value)"),
    ("css-alias", D, "            self._items = list(value)\n\n    def __len__(self) -> int:\n        return len(self._items)\n\n    def __getitem__(self, index", "            self._items = value\n\n    def __len__(self) -> int:\n        return len(self._items)\n\n    def __getitem__(self, index"),
    ("css-split", D, "            splitter.whitespace_split = True\n", ""),
    ("css-str", D, '", ".join(repr(item) for item in self)', '",".join(item for item in self)'),
    ("secret-repr", D, "return f\"{class_name}('**********')\"", "return f\"{class_name}({'*' * len(self._value)!r})\""),
    ("secret-repr-shown", D, "return f\"{class_name}('**********')\"", "return f\"{class_name}({self._value[:2]!r})\""),
    ("secret-bool", D, "        return bool(self._value)\n\n\nclass CommaS", "        return self._value is not None\n\n\nclass CommaS"),
    ("address-swap", D, "    host: str\n    port: int\n", "    port: int\n    host: str\n"),
    ("mw-args", M, "as_tuple = (self.cls, self.args, self.kwargs)", "as_tuple = (self.cls, self.kwargs, self.args)"),
    ("mw-repr", M, "[name] + args_strings + option_strings", "[name] + option_strings + args_strings"),
    ("first-cancel", K, "            await func()\n            task_group.cancel_scope.cancel()\n", "            await func()\n"),
    ("first-late", K, "            task_group.start_soon(run, functools.partial(func, **kwargs))", "            task_group.start_soon(run, lambda: func(**kwargs))"),
    ("first-kwargs", K, "functools.partial(func, **kwargs)", "func"),
]
GOOD = [
    ("task-inline", B, "        task = BackgroundTask(func, *args, **kwargs)\n        self.tasks.append(task)", "        self.tasks.append(BackgroundTask(func, *args, **kwargs))"),
    ("task-neg", B, "        if self.is_async:\n            await self.func(*self.args, **self.kwargs)\n        else:\n            await run_in_threadpool(self.func, *self.args, **self.kwargs)", "        if not self.is_async:\n            await run_in_threadpool(self.func, *self.args, **self.kwargs)\n        else:\n            await self.func(*self.args, **self.kwargs)"),
    ("tasks-init", B, "        self.tasks = list(tasks) if tasks else []", "        self.tasks = []\n        if tasks:\n            self.tasks.extend(tasks)"),
    ("tasks-while", B, "        for task in self.tasks:\n            await task()", "        i = 0\n        while i < len(self.tasks):\n            await self.tasks[i]()\n            i += 1"),
    ("tasks-enumerate", B, "        for task in self.tasks:\n            await task()", "        for _, task in enumerate(self.tasks):\n            await task()"),
    ("exc-phrase", X, "        if detail is None:\n            detail = http.HTTPStatus(status_code).phrase\n        self.status_code = status_code\n        self.detail = detail", "        self.status_code = status_code\n        self.detail = http.HTTPStatus(status_code).phrase if detail is None else detail"),
    ("exc-type", X, '        class_name = self.__class__.__name__\n        return f"{class_name}(status', '        class_name = type(self).__name__\n        return f"{class_name}(status'),
    ("exc-format", X, 'return f"{self.status_code}: {self.detail}"', 'return "{}: {}".format(self.status_code, self.detail)'),
    ("scopes-star", A, "[] if scopes is None else list(scopes)", "[*scopes] if scopes is not None else []"),
    ("css-map", D, "[item.strip() for item in splitter]", "list(map(str.strip, splitter))"),
    ("css-loop", D, "            self._items = [item.strip() for item in splitter]\n", "            self._items = []\n            for item in splitter:\n                self._items.append(item.strip())\n"),
    ("css-repr", D, "        items = [item for item in self]\n", "        items = list(self)\n"),
    ("secret-bool", D, "        return bool(self._value)\n\n\nclass CommaS", "        return len(self._value) > 0\n\n\nclass CommaS"),
    ("mw-iter", M, "        as_tuple = (self.cls, self.args, self.kwargs)\n        return iter(as_tuple)", "        yield self.cls\n        yield self.args\n        yield self.kwargs"),
    ("mw-repr", M, '        args_strings = [f"{value!r}" for value in self.args]\n', '        args_strings = [repr(value) for value in self.args]\n'),
    ("first-kw", K, "        for func, kwargs in args:\n            task_group.start_soon(run, functools.partial(func, **kwargs))", "        for pair in args:\n            func, kwargs = pair\n            bound = functools.partial(func, **kwargs)\n            task_group.start_soon(run, bound)"),
    ("first-bind", K, "            task_group.start_soon(run, functools.partial(func, **kwargs))", "            task_group.start_soon(run, lambda func=func, kwargs=kwargs: func(**kwargs))"),
]
