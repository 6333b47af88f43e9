P, R, D = "formparsers.py", "requests.py", "datastructures.py"
BAD = [
    ('am-close-always', 'requests.py', '        if self._form is not None:  # pragma: no branch\n            await self._form.close()', '        await self._form.close()'),
    ("close-only-multipart", P, "        except BaseException:\n", "        except MultiPartException:\n"),
    ("close-exception", P, "        except BaseException:\n", "        except Exception:\n"),
    ("close-first", P, "            for file in self._files_to_close_on_error:\n                file.close()", "            for file in self._files_to_close_on_error[:1]:\n                file.close()"),
    ("close-items", P, "            for file in self._files_to_close_on_error:\n                file.close()", "            for _, item in self.items:\n                if isinstance(item, UploadFile):\n                    item.file.close()"),
    ("late-register", P, ["            self._files_to_close_on_error.append(tempfile)\n", "            self._file_parts_to_finish.append(self._current_part)\n"], ["", "            self._file_parts_to_finish.append(self._current_part)\n            self._files_to_close_on_error.append(self._current_part.file.file)\n"]),
    ("part-limit-piece", P, "len(self._current_part.data) + len(message_bytes) > self.max_part_size", "len(message_bytes) > self.max_part_size"),
    ("part-limit-ge", P, "len(message_bytes) > self.max_part_size", "len(message_bytes) >= self.max_part_size"),
    ("part-limit-before", P, "len(self._current_part.data) + len(message_bytes) > self.max_part_size", "len(self._current_part.data) > self.max_part_size"),
    ("files-ge", P, "self._current_files > self.max_files", "self._current_files >= self.max_files"),
    ("fields-count-reset", P, "        self._current_part = MultipartPart()\n\n    def on_part_data", "        self._current_part = MultipartPart()\n        self._current_fields = 0\n\n    def on_part_data"),
    ("swap-limits", R, "max_files=max_files,\n                        max_fields=max_fields", "max_files=max_fields,\n                        max_fields=max_files"),
    ("drop-part-limit", R, "                        max_part_size=max_part_size,\n", ""),
    ("no-400", R, '                    if "app" in self.scope:\n                        raise HTTPException(status_code=400, detail=exc.message)\n', ""),
    ("500", R, "HTTPException(status_code=400, detail=exc.message)", "HTTPException(status_code=413, detail=exc.message)"),
    ("no-seek", P, "                for part in self._file_parts_to_finish:\n                    assert part.file  # for type checkers\n                    await part.file.seek(0)\n", ""),
    ("finish-first", P, "                for part, data in self._file_parts_to_write:\n                    assert part.file  # for type checkers\n                    await part.file.write(data)\n                for part in self._file_parts_to_finish:\n                    assert part.file  # for type checkers\n                    await part.file.seek(0)\n", "                for part in self._file_parts_to_finish:\n                    assert part.file  # for type checkers\n                    await part.file.seek(0)\n                for part, data in self._file_parts_to_write:\n                    assert part.file  # for type checkers\n                    await part.file.write(data)\n"),
    ("write-not-cleared", P, "                self._file_parts_to_write.clear()\n", ""),
    ("header-name-lost", P, "self._current_partial_header_name += data[start:end]", "self._current_partial_header_name = data[start:end]"),
    ("header-value-lost", P, "self._current_partial_header_value += data[start:end]", "self._current_partial_header_value = data[start:end]"),
    ("header-value-kept", P, '        self._current_partial_header_name = b""\n        self._current_partial_header_value = b""\n\n    def on_headers', '        self._current_partial_header_name = b""\n\n    def on_headers'),
    ("whole-data", P, "        message_bytes = data[start:end]\n", "        message_bytes = data[start:]\n"),
    ("no-charset", P, "_user_safe_decode(self._current_part.data, self._charset)", '_user_safe_decode(self._current_part.data, "utf-8")'),
    ("name-charset", P, 'options[b"name"], self._charset)', 'options[b"name"], "utf-8")'),
    ("lookup", P, "except (UnicodeDecodeError, LookupError)", "except UnicodeDecodeError"),
    ("replace", P, 'return src.decode("latin-1")', 'return src.decode("utf-8", "replace")'),
    ("keyerror", P, "        except KeyError:\n            raise MultiPartException('The", "        except IndexError:\n            raise MultiPartException('The"),
    ("items-once", P, "            self.items.append((self._current_part.field_name, self._current_part.file))", "            if self._current_part.file.size:\n                self.items.append((self._current_part.field_name, self._current_part.file))"),
    ("size-zero", P, "                size=0,\n", "                size=None,\n"),
    ("form-close-first", D, "            if isinstance(value, UploadFile):\n                await value.close()", "            if isinstance(value, UploadFile):\n                return await value.close()"),
    ("form-close-dict", D, "for key, value in self.multi_items():\n            if isinstance(value, UploadFile)", "for key, value in self.items():\n            if isinstance(value, UploadFile)"),
    ("size-assign", D, "self.size += len(data)", "self.size = len(data)"),
    ("close-noop", D, "        if self._in_memory:\n            self.file.close()\n        else:\n            await run_in_threadpool(self.file.close)", "        if not self._in_memory:\n            await run_in_threadpool(self.file.close)"),
    ("close-rolled-noop", D, "        if self._in_memory:\n            self.file.close()\n        else:\n            await run_in_threadpool(self.file.close)", "        if self._in_memory:\n            self.file.close()"),
    ("write-not-awaited", D, "            await run_in_threadpool(self.file.write, data)", "            run_in_threadpool(self.file.write, data)"),
    ("aexit-on-success", "_utils.py", "        await self.entered.close()\n        return None", "        if args[0] is None:\n            await self.entered.close()\n        return None"),
    ("aexit-swallow", "_utils.py", "        await self.entered.close()\n        return None", "        await self.entered.close()\n        return True"),
    ("form-reparsed", R, "                    self._form = await multipart_parser.parse()", "                    return await multipart_parser.parse()"),
    ("url-decode-utf8", P, 'unquote_plus(field_value.decode("latin-1"))', 'unquote_plus(field_value.decode("utf-8", "ignore"))'),
    ("url-name-reset", P, '                    field_name = b""\n                    field_value = b""\n                elif', '                    field_name = b""\n                elif'),
    ("url-name-assign", P, "field_name += message_bytes", "field_name = message_bytes"),
    ("url-messages", P, "            self.messages.clear()\n", ""),
    ("no-finalize", P, "            else:\n                parser.finalize()\n            messages", "            messages"),
    ("type-case", R, 'content_type == b"multipart/form-data"', 'content_type_header == "multipart/form-data"'),
    ("shared-items", P, ['    max_part_size = 1024 * 1024  # 1MB\n    """The', "        self.items: list[tuple[str, str | UploadFile]] = []\n        self._current_files = 0\n"], ['    items: list[tuple[str, str | UploadFile]] = []\n    max_part_size = 1024 * 1024  # 1MB\n    """The', "        self._current_files = 0\n"]),
]
GOOD = [
    ("try-finally-flag", P, ["        try:\n            # Feed the parser", "        except BaseException:\n            # Close all the files if there was an error, including a client\n            # disconnect, a malformed body or a cancellation.\n            for file in self._files_to_close_on_error:\n                file.close()\n            raise\n"], ["        done = False\n        try:\n            # Feed the parser", "            done = True\n        finally:\n            if not done:\n                for file in self._files_to_close_on_error:\n                    file.close()\n"]),
    ("flush-helper", P, ["                for part, data in self._file_parts_to_write:\n                    assert part.file  # for type checkers\n                    await part.file.write(data)\n                for part in self._file_parts_to_finish:\n                    assert part.file  # for type checkers\n                    await part.file.seek(0)\n                self._file_parts_to_write.clear()\n                self._file_parts_to_finish.clear()\n", "    async def parse(self) -> FormData:\n        # Parse the Content"], ["                await self._flush()\n", "    async def _flush(self) -> None:\n        writes, self._file_parts_to_write = self._file_parts_to_write, []\n        finished, self._file_parts_to_finish = self._file_parts_to_finish, []\n        for part, data in writes:\n            assert part.file\n            await part.file.write(data)\n        for part in finished:\n            assert part.file\n            await part.file.seek(0)\n\n    async def parse(self) -> FormData:\n        # Parse the Content"]),
    ("size-counter", P, ["len(self._current_part.data) + len(message_bytes) > self.max_part_size"], ["self.max_part_size < len(message_bytes) + len(self._current_part.data)"]),
    ("bytes-part", P, ["    data: bytearray = field(default_factory=bytearray)", "self._current_part.data.extend(message_bytes)"], ["    data: bytes = b\"\"", "self._current_part.data += message_bytes"]),
    ("iadd-bytearray", P, "self._current_part.data.extend(message_bytes)", "self._current_part.data += message_bytes"),
    ("while-pop", P, "                for part, data in self._file_parts_to_write:\n                    assert part.file  # for type checkers\n                    await part.file.write(data)\n", "                while self._file_parts_to_write:\n                    part, data = self._file_parts_to_write.pop(0)\n                    assert part.file  # for type checkers\n                    await part.file.write(data)\n"),
    ("early-append", P, "            self._file_parts_to_finish.append(self._current_part)\n            # The file can be added to the items right now even though it's not\n            # finished yet, because it will be finished in the `parse()` method, before\n            # self.items is used in the return value.\n            self.items.append((self._current_part.field_name, self._current_part.file))", "            self.items.append((self._current_part.field_name, self._current_part.file))\n            self._file_parts_to_finish.append(self._current_part)"),
    ("options-get", P, ["        try:\n            self._current_part.field_name = _user_safe_decode(options[b\"name\"], self._charset)\n        except KeyError:\n            raise MultiPartException('The Content-Disposition header field \"name\" must be provided.')\n"], ["        if b\"name\" not in options:\n            raise MultiPartException('The Content-Disposition header field \"name\" must be provided.')\n        self._current_part.field_name = _user_safe_decode(options[b\"name\"], self._charset)\n"]),
    ("url-list", P, ["        field_name = b\"\"\n        field_value = b\"\"\n\n        items", "                    field_name += message_bytes", "                    name = unquote_plus(field_name.decode(\"latin-1\"))", "                    field_name = b\"\"\n                    field_value = b\"\"\n                elif"], ["        field_name: list[bytes] = []\n        field_value = b\"\"\n\n        items", "                    field_name.append(message_bytes)", "                    name = unquote_plus(b\"\".join(field_name).decode(\"latin-1\"))", "                    field_name = []\n                    field_value = b\"\"\n                elif"]),
    ("lookup-error", P, "except (UnicodeDecodeError, LookupError)", "except (ValueError, LookupError)"),
    ("url-match-order", P, "            messages = list(self.messages)\n            self.messages.clear()\n", "            messages, self.messages = self.messages, []\n"),
]
