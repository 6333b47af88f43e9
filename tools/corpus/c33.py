F = "config.py"
BAD = [
    ("default truthy", F, "if default is not undefined:", "if default:"),
    ("default none lost", F, "if default is not undefined:", "if default is not None:"),
    ("file first", F, "        if key in self.environ:\n            value = self.environ[key]\n            return self._perform_cast(key, value, cast)\n        if key in self.file_values:\n            value = self.file_values[key]\n            return self._perform_cast(key, value, cast)\n", "        if key in self.file_values:\n            value = self.file_values[key]\n            return self._perform_cast(key, value, cast)\n        if key in self.environ:\n            value = self.environ[key]\n            return self._perform_cast(key, value, cast)\n"),
    ("prefix not for file", F, "        key = self.env_prefix + key\n        if key in self.environ:\n            value = self.environ[key]\n", "        name, key = key, self.env_prefix + key\n        if key in self.environ:\n            value = self.environ[key]\n            return self._perform_cast(key, value, cast)\n        key = name\n        if False:\n"),
    ("env truthy", F, "        if key in self.environ:\n            value = self.environ[key]\n", "        value = self.environ.get(key)\n        if value:\n"),
    ("default not cast", F, "            return self._perform_cast(key, default, cast)\n", "            return default\n"),
    ("none cast", F, "if cast is None or value is None:", "if cast is None:"),
    ("falsy not cast", F, "if cast is None or value is None:", "if cast is None or not value:"),
    ("bool not str", F, "elif cast is bool and isinstance(value, str):", "elif False:"),
    ("bool case", F, "            value = value.lower()\n", ""),
    ("bool lenient", F, "            if value not in mapping:\n                raise ValueError(f\"Config '{key}' has value '{value}'. Not a valid bool.\")\n            return mapping[value]", "            return mapping.get(value, False)"),
    ("bool yes", F, '"0": False}', '"0": False, "yes": True}'),
    ("type error", F, "except (TypeError, ValueError):", "except ValueError:"),
    ("any error", F, "except (TypeError, ValueError):", "except Exception:"),
    ("last split", F, 'line.split("=", 1)', 'line.rsplit("=", 1)'),
    ("comments kept", F, ' and not line.startswith("#")', ""),
    ("comment unstripped", F, "                line = line.strip()\n", ""),
    ("first wins", F, "                    file_values[key] = value", "                    file_values.setdefault(key, value)"),
    ("quotes kept", F, '.strip("\\"\'")', ""),
    ("inner hash", F, "                line = line.strip()\n", '                line = line.split("#")[0].strip()\n'),
    ("empty skipped", F, "                    file_values[key] = value", "                    if value:\n                        file_values[key] = value"),
    ("guard set", F, "        if key in self._has_been_read:\n            raise EnvironError(f\"Attempting to set", "        if False:\n            raise EnvironError(f\"Attempting to set"),
    ("guard del", F, "        if key in self._has_been_read:\n            raise EnvironError(f\"Attempting to delete", "        if False:\n            raise EnvironError(f\"Attempting to delete"),
    ("mark after", F, "        self._has_been_read.add(key)\n        return self._environ.__getitem__(key)", "        value = self._environ.__getitem__(key)\n        self._has_been_read.add(key)\n        return value"),
    ("no mark", F, "        self._has_been_read.add(key)\n", ""),
    ("class mark", F, ["        self._has_been_read: set[str] = set()\n", "class Environ(typing.MutableMapping[str, str]):\n"], ["", "class Environ(typing.MutableMapping[str, str]):\n    _has_been_read: typing.Set[str] = set()\n\n"]),
    ("contains raw", F, "    def __iter__(self) -> typing.Iterator[str]:", "    def __contains__(self, key: object) -> bool:\n        return key in self._environ\n\n    def __iter__(self) -> typing.Iterator[str]:"),
    ("get raw", F, "    def __iter__(self) -> typing.Iterator[str]:", "    def get(self, key, default=None):\n        return self._environ.get(key, default)\n\n    def __iter__(self) -> typing.Iterator[str]:"),
    ("update raw", F, "    def __iter__(self) -> typing.Iterator[str]:", "    def update(self, *args, **kwargs):\n        self._environ.update(*args, **kwargs)\n\n    def __iter__(self) -> typing.Iterator[str]:"),
    ("set then raise", F, "        if key in self._has_been_read:\n            raise EnvironError(f\"Attempting to set environ['{key}'], but the value has already been read.\")\n        self._environ.__setitem__(key, value)", "        self._environ.__setitem__(key, value)\n        if key in self._has_been_read:\n            raise EnvironError(f\"Attempting to set environ['{key}'], but the value has already been read.\")"),
    ("copy", F, "        self._environ = environ\n", "        self._environ = dict(environ)\n"),
    ("call drops default", F, "return self.get(key, cast, default)", "return self.get(key, cast, default or undefined)"),
]
GOOD = [
    ("getitem ops", F, ["self._environ.__getitem__(key)", "self._environ.__setitem__(key, value)", "self._environ.__delitem__(key)"], ["self._environ[key]", "self._environ.__setitem__(key, value)", "self._environ.__delitem__(key)"]),
    ("guard helper", F, ["        if key in self._has_been_read:\n            raise EnvironError(f\"Attempting to set environ['{key}'], but the value has already been read.\")\n", "        if key in self._has_been_read:\n            raise EnvironError(f\"Attempting to delete environ['{key}'], but the value has already been read.\")\n", "    def __iter__"], ["        self._check(key, \"set\")\n", "        self._check(key, \"delete\")\n", "    def _check(self, key, what):\n        if key in self._has_been_read:\n            raise EnvironError(f\"Attempting to {what} environ['{key}'], but the value has already been read.\")\n\n    def __iter__"]),
    ("sources loop", F, "        if key in self.environ:\n            value = self.environ[key]\n            return self._perform_cast(key, value, cast)\n        if key in self.file_values:\n            value = self.file_values[key]\n            return self._perform_cast(key, value, cast)\n", "        for source in (self.environ, self.file_values):\n            if key in source:\n                return self._perform_cast(key, source[key], cast)\n"),
    ("value then cast", F, "        if key in self.environ:\n            value = self.environ[key]\n            return self._perform_cast(key, value, cast)\n        if key in self.file_values:\n            value = self.file_values[key]\n            return self._perform_cast(key, value, cast)\n        if default is not undefined:\n            return self._perform_cast(key, default, cast)\n        raise KeyError(f\"Config '{key}' is missing, and has no default.\")", "        if key in self.environ:\n            value = self.environ[key]\n        elif key in self.file_values:\n            value = self.file_values[key]\n        elif default is not undefined:\n            value = default\n        else:\n            raise KeyError(f\"Config '{key}' is missing, and has no default.\")\n        return self._perform_cast(key, value, cast)"),
    ("try bool", F, "            if value not in mapping:\n                raise ValueError(f\"Config '{key}' has value '{value}'. Not a valid bool.\")\n            return mapping[value]", "            try:\n                return mapping[value]\n            except KeyError:\n                raise ValueError(f\"Config '{key}' has value '{value}'. Not a valid bool.\") from None"),
    ("bool sets", F, '            mapping = {"true": True, "1": True, "false": False, "0": False}\n            value = value.lower()\n            if value not in mapping:\n                raise ValueError(f"Config \'{key}\' has value \'{value}\'. Not a valid bool.")\n            return mapping[value]', '            value = value.lower()\n            if value in ("true", "1"):\n                return True\n            if value in {"false", "0"}:\n                return False\n            raise ValueError(f"Config \'{key}\' has value \'{value}\'. Not a valid bool.")'),
    ("partition", F, ['                if "=" in line and not line.startswith("#"):\n                    key, value = line.split("=", 1)\n'], ['                if line.startswith("#"):\n                    continue\n                key, eq, value = line.partition("=")\n                if eq:\n']),
    ("iterate file", F, "input_file.readlines()", "input_file"),
    ("dict comprehension", F, "        file_values: dict[str, str] = {}\n        with open(file_name) as input_file:\n            for line in input_file.readlines():\n                line = line.strip()\n                if \"=\" in line and not line.startswith(\"#\"):\n                    key, value = line.split(\"=\", 1)\n                    key = key.strip()\n                    value = value.strip().strip(\"\\\"'\")\n                    file_values[key] = value\n        return file_values\n", "        with open(file_name) as input_file:\n            lines = [line.strip() for line in input_file]\n        pairs = [line.split(\"=\", 1) for line in lines if \"=\" in line and not line.startswith(\"#\")]\n        return {key.strip(): value.strip().strip(\"\\\"'\") for key, value in pairs}\n"),
    ("discard set", F, "self._has_been_read.add(key)", "self._has_been_read |= {key}"),
    ("contains marks", F, "    def __iter__(self) -> typing.Iterator[str]:", "    def __contains__(self, key: object) -> bool:\n        self._has_been_read.add(key)\n        return key in self._environ\n\n    def __iter__(self) -> typing.Iterator[str]:"),
]
