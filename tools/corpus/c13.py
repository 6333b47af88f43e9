F = "staticfiles.py"
BAD = [
    ('config-checked-first', 'staticfiles.py', '            await self.check_config()\n            self.config_checked = True', '            self.config_checked = True\n            await self.check_config()'),
    ('config-lnk', 'staticfiles.py', 'if not (stat.S_ISDIR(stat_result.st_mode) or', 'if not (stat.S_ISDIR(stat_result.st_mode) or stat.S_ISREG(stat_result.st_mode) or'),
    ("startswith containment", F, "if os.path.commonpath([full_path, directory]) != str(directory):", "if not full_path.startswith(str(directory)):"),
    ("commonprefix", F, "os.path.commonpath([full_path", "os.path.commonprefix([full_path"),
    ("no containment check", F, "                continue\n            try:\n                return full_path", "                pass\n            try:\n                return full_path"),
    ("abspath without follow", F, "full_path = os.path.realpath(joined_path)", "full_path = os.path.abspath(joined_path)"),
    ("stat joined", F, "return full_path, os.stat(full_path)", "return full_path, os.stat(joined_path)"),
    ("serve joined", F, "return full_path, os.stat(full_path)", "return joined_path, os.stat(full_path)"),
    ("check after stat", F, "                # Don't allow misbehaving clients to break out of the static files directory.\n                continue", "                return full_path, os.stat(full_path)"),
    ("break on missing", F, "            except (FileNotFoundError, NotADirectoryError):\n                continue", "            except (FileNotFoundError, NotADirectoryError):\n                break"),
    ("break on outside", F, "static files directory.\n                continue", "static files directory.\n                break"),
    ("notdir not caught", F, "except (FileNotFoundError, NotADirectoryError):", "except FileNotFoundError:"),
    ("permission swallowed", F, "except (FileNotFoundError, NotADirectoryError):", "except (FileNotFoundError, NotADirectoryError, PermissionError):"),
    ("all os errors swallowed", F, "            raise exc\n", "            raise HTTPException(status_code=404)\n"),
    ("permission 403", F, "status_code=401", "status_code=403"),
    ("reversed", F, "for directory in self.all_directories:", "for directory in reversed(self.all_directories):"),
    ("post allowed", F, 'not in ("GET", "HEAD"):', 'not in ("GET", "HEAD", "POST"):'),
    ("head refused", F, 'not in ("GET", "HEAD"):', 'not in ("GET",):'),
    ("405 late", F, 'raise HTTPException(status_code=405)', 'raise HTTPException(status_code=404)'),
    ("404 page 200", F, "stat_result=stat_result, status_code=404)", "stat_result=stat_result)"),
    ("404 page not regular", F, "            if stat_result and stat.S_ISREG(stat_result.st_mode):\n                return FileResponse", "            if stat_result:\n                return FileResponse"),
    ("404 page without html", F, "        if self.html:\n            # Check for '404", "        if True:\n            # Check for '404"),
    ("index not regular", F, "if stat_result is not None and stat.S_ISREG(stat_result.st_mode):", "if stat_result is not None:"),
    ("no redirect", F, 'if not scope["path"].endswith("/"):', 'if not scope["path"]:'),
    ("redirect relative", F, 'url = url.replace(path=url.path + "/")', 'url = url.replace(path=scope["path"] + "/", query="")'),
    ("redirect normalised path", F, 'url = url.replace(path=url.path + "/")', 'url = url.replace(path="/" + path + "/")'),
    ("dir served", F, "if stat_result and stat.S_ISREG(stat_result.st_mode):\n            # We have", "if stat_result and not stat.S_ISDIR(stat_result.st_mode):\n            # We have"),
    ("index without html", F, "stat.S_ISDIR(stat_result.st_mode) and self.html:", "stat.S_ISDIR(stat_result.st_mode):"),
    ("null not caught", F, "        except ValueError:\n            # Null bytes can't be part of a file name.\n            raise HTTPException(status_code=404)\n", ""),
    ("follow swapped", F, "if self.follow_symlink:", "if not self.follow_symlink:"),
    ("dir not resolved", F, "                directory = os.path.realpath(directory)\n", ""),
    ("follow dropped", F, "self.follow_symlink = follow_symlink", "self.follow_symlink = True"),
    ("wrong package dir", F, 'os.path.join(spec.origin, "..", statics_dir)', 'os.path.join(spec.origin, "..", "..", statics_dir)'),
    ("index path unnormalised root", F, 'index_path = os.path.join(path, "index.html")', 'index_path = "index.html"'),
]
GOOD = [
    ('config-try', 'staticfiles.py', '        if not self.config_checked:\n            await self.check_config()\n            self.config_checked = True\n', '        if self.config_checked is False:\n            await self.check_config()\n        self.config_checked = True\n'),
    ("commonpath tuple", F, "os.path.commonpath([full_path, directory])", "os.path.commonpath((directory, full_path))"),
    ("positive form", F, """            if os.path.commonpath([full_path, directory]) != str(directory):
                # Don't allow misbehaving clients to break out of the static files directory.
                continue
            try:
                return full_path, os.stat(full_path)
            except (FileNotFoundError, NotADirectoryError):
                continue""", """            if os.path.commonpath([full_path, directory]) == str(directory):
                try:
                    return full_path, os.stat(full_path)
                except (FileNotFoundError, NotADirectoryError):
                    pass"""),
    ("resolve function", F, """            if self.follow_symlink:
                full_path = os.path.abspath(joined_path)
                directory = os.path.abspath(directory)
            else:
                full_path = os.path.realpath(joined_path)
                directory = os.path.realpath(directory)
""", """            resolve = os.path.abspath if self.follow_symlink else os.path.realpath
            full_path, directory = resolve(joined_path), resolve(directory)
"""),
    ("helper", F, ["            if os.path.commonpath([full_path, directory]) != str(directory):", "    def file_response(\n"], ["            if not self._inside(full_path, directory):", "    @staticmethod\n    def _inside(path, directory):\n        return os.path.commonpath([path, directory]) == str(directory)\n\n    def file_response(\n"]),
    ("match status", F, "        if scope[\"method\"] not in (\"GET\", \"HEAD\"):", "        if not (scope[\"method\"] == \"GET\" or scope[\"method\"] == \"HEAD\"):"),
    ("mode local", F, "        if stat_result and stat.S_ISREG(stat_result.st_mode):\n            # We have", "        mode = stat_result.st_mode if stat_result else 0\n        if stat_result is not None and stat.S_ISREG(mode):\n            # We have"),
    ("slash by slice", F, 'if not scope["path"].endswith("/"):', 'if scope["path"][-1:] != "/":'),
    ("errno order", F, "        except PermissionError:\n            raise HTTPException(status_code=401)\n        except OSError as exc:\n", "        except OSError as exc:\n            if isinstance(exc, PermissionError):\n                raise HTTPException(status_code=401)\n"),
    ("bare raise", F, "            raise exc\n", "            raise\n"),
    ("redirect via str", F, "return RedirectResponse(url=url)", "return RedirectResponse(str(url))"),
    ("startswith sep", F, "if os.path.commonpath([full_path, directory]) != str(directory):", "if full_path != directory and not full_path.startswith(directory + os.sep):"),
    ("comprehension dirs", F, "for directory in self.all_directories:\n            joined_path = os.path.join(directory, path)", "for directory, joined_path in [(d, os.path.join(d, path)) for d in self.all_directories]:"),
]
