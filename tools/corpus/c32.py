F = "datastructures.py"
BAD = [
    ('am-getlist-utf8', 'datastructures.py', 'get_header_key = key.lower().encode("latin-1")\n        return [', 'get_header_key = key.lower().encode()\n        return ['),
    ("mapping not lowered", F, "(key.lower().encode(\"latin-1\"), value.encode(\"latin-1\")) for key, value in headers.items()", "(key.encode(\"latin-1\"), value.encode(\"latin-1\")) for key, value in headers.items()"),
    ("mapping utf8", F, "value.encode(\"latin-1\")) for key, value in headers.items()", "value.encode(\"utf-8\")) for key, value in headers.items()"),
    ("raw copied", F, "            self._list = raw\n", "            self._list = list(raw)\n"),
    ("scope not written", F, 'self._list = scope["headers"] = list(scope["headers"])', 'self._list = list(scope["headers"])'),
    ("raw alias", F, "    def raw(self) -> list[tuple[bytes, bytes]]:\n        return list(self._list)", "    def raw(self) -> list[tuple[bytes, bytes]]:\n        return self._list"),
    ("copy alias", F, "MutableHeaders(raw=self._list[:])", "MutableHeaders(raw=self._list)"),
    ("getitem last", F, "        for header_key, header_value in self._list:\n            if header_key == get_header_key:\n                return header_value.decode(\"latin-1\")\n        raise KeyError(key)", "        for header_key, header_value in reversed(self._list):\n            if header_key == get_header_key:\n                return header_value.decode(\"latin-1\")\n        raise KeyError(key)"),
    ("getitem case", F, "    def __getitem__(self, key: str) -> str:\n        get_header_key = key.lower()", "    def __getitem__(self, key: str) -> str:\n        get_header_key = key"),
    ("contains case", F, "    def __contains__(self, key: typing.Any) -> bool:\n        get_header_key = key.lower()", "    def __contains__(self, key: typing.Any) -> bool:\n        get_header_key = key"),
    ("contains truthy", F, "            if header_key == get_header_key:\n                return True", "            if header_key == get_header_key and header_value:\n                return True"),
    ("getlist joined", F, "return [item_value.decode(\"latin-1\") for item_key, item_value in self._list if item_key == get_header_key]", "return [v.strip() for item_key, item_value in self._list if item_key == get_header_key for v in item_value.decode(\"latin-1\").split(\",\")]"),
    ("values utf8", F, "        return [value.decode(\"latin-1\") for key, value in self._list]", "        return [value.decode(\"utf-8\", \"replace\") for key, value in self._list]"),
    ("items dict", F, "        return [(key.decode(\"latin-1\"), value.decode(\"latin-1\")) for key, value in self._list]", "        return list({key.decode(\"latin-1\"): value.decode(\"latin-1\") for key, value in self._list}.items())"),
    ("len keys", F, "    def __len__(self) -> int:\n        return len(self._list)\n", "    def __len__(self) -> int:\n        return len(set(self.keys()))\n"),
    ("eq ordered", F, "        return sorted(self._list) == sorted(other._list)\n\n    def __repr__(self) -> str:\n        class_name = self.__class__.__name__\n        as_dict", "        return self._list == other._list\n\n    def __repr__(self) -> str:\n        class_name = self.__class__.__name__\n        as_dict"),
    ("eq dict", F, "        return sorted(self._list) == sorted(other._list)\n\n    def __repr__(self) -> str:\n        class_name = self.__class__.__name__\n        as_dict", "        return dict(self._list) == dict(other._list)\n\n    def __repr__(self) -> str:\n        class_name = self.__class__.__name__\n        as_dict"),
    ("set keeps dups", F, "        for idx in reversed(found_indexes[1:]):\n            del self._list[idx]\n", ""),
    ("set wrong dup", F, "reversed(found_indexes[1:])", "found_indexes[1:]"),
    ("set at end", F, "            idx = found_indexes[0]\n            self._list[idx] = (set_key, set_value)", "            del self._list[found_indexes[0]]\n            self._list.append((set_key, set_value))"),
    ("set last", F, "reversed(found_indexes[1:])", "reversed(found_indexes[:-1])"),
    ("del first", F, "        for idx in reversed(pop_indexes):\n            del self._list[idx]", "        for idx in pop_indexes[:1]:\n            del self._list[idx]"),
    ("del forward", F, "for idx in reversed(pop_indexes):", "for idx in pop_indexes:"),
    ("del case", F, "        del_key = key.lower()", "        del_key = key"),
    ("setdefault bytes", F, "                return item_value.decode(\"latin-1\")\n        self._list.append((set_key, set_value))\n        return value", "                return value\n        self._list.append((set_key, set_value))\n        return value"),
    ("setdefault appends", F, "                return item_value.decode(\"latin-1\")\n        self._list.append((set_key, set_value))", "                break\n        self._list.append((set_key, set_value))"),
    ("append case", F, "        append_key = key.lower()", "        append_key = key"),
    ("append unique", F, "        self._list.append((append_key, append_value))", "        if (append_key, append_value) not in self._list:\n            self._list.append((append_key, append_value))"),
    ("update appends", F, "        for key, val in other.items():\n            self[key] = val", "        for key, val in other.items():\n            self.append(key, val)"),
    ("update missing", F, "        for key, val in other.items():\n            self[key] = val", "        for key, val in other.items():\n            self.setdefault(key, val)"),
    ("or in place", F, "        new = self.mutablecopy()\n        new.update(other)\n        return new", "        self.update(other)\n        return self"),
    ("ior new", F, "        self.update(other)\n        return self", "        new = self.mutablecopy()\n        new.update(other)\n        return new"),
    ("ior any", F, "    def __ior__(self, other: typing.Mapping[str, str]) -> MutableHeaders:\n        if not isinstance(other, typing.Mapping):\n            raise TypeError(f\"Expected a mapping but got {other.__class__.__name__}\")\n", "    def __ior__(self, other: typing.Mapping[str, str]) -> MutableHeaders:\n        other = dict(other)\n"),
    ("vary first", F, 'self["vary"] = ", ".join([*self.getlist("vary"), vary])', 'existing = self.get("vary")\n        self["vary"] = ", ".join([existing, vary]) if existing is not None else vary'),
    ("vary replaces", F, 'self["vary"] = ", ".join([*self.getlist("vary"), vary])', 'self["vary"] = vary'),
    ("encode after delete", F, ["        set_value = value.encode(\"latin-1\")\n\n        found", "        if found_indexes:\n            idx"], ["\n        found", "        set_value = value.encode(\"latin-1\")\n        if found_indexes:\n            idx"]),
]
GOOD = [
    ("set rebuild in place", F, "        for idx in reversed(found_indexes[1:]):\n            del self._list[idx]\n\n        if found_indexes:\n            idx = found_indexes[0]\n            self._list[idx] = (set_key, set_value)\n        else:\n            self._list.append((set_key, set_value))", "        if not found_indexes:\n            self._list.append((set_key, set_value))\n            return\n        first, *others = found_indexes\n        self._list[first] = (set_key, set_value)\n        for idx in reversed(others):\n            del self._list[idx]"),
    ("found comprehension", F, "        found_indexes: list[int] = []\n        for idx, (item_key, item_value) in enumerate(self._list):\n            if item_key == set_key:\n                found_indexes.append(idx)\n", "        found_indexes = [idx for idx, (item_key, _) in enumerate(self._list) if item_key == set_key]\n"),
    ("del slice", F, "        pop_indexes: list[int] = []\n        for idx, (item_key, item_value) in enumerate(self._list):\n            if item_key == del_key:\n                pop_indexes.append(idx)\n\n        for idx in reversed(pop_indexes):\n            del self._list[idx]", "        self._list[:] = [item for item in self._list if item[0] != del_key]"),
    ("contains any", F, "        for header_key, header_value in self._list:\n            if header_key == get_header_key:\n                return True\n        return False", "        return any(header_key == get_header_key for header_key, _ in self._list)"),
    ("getitem list", F, "        for header_key, header_value in self._list:\n            if header_key == get_header_key:\n                return header_value.decode(\"latin-1\")\n        raise KeyError(key)", "        values = self.getlist(key)\n        if not values:\n            raise KeyError(key)\n        return values[0]"),
    ("or via copy", F, "        new = self.mutablecopy()\n        new.update(other)\n        return new", "        new = MutableHeaders(raw=list(self._list))\n        for key in other:\n            new[key] = other[key]\n        return new"),
    ("setdefault contains", F, "        for idx, (item_key, item_value) in enumerate(self._list):\n            if item_key == set_key:\n                return item_value.decode(\"latin-1\")\n        self._list.append((set_key, set_value))\n        return value", "        if key in self:\n            return self[key]\n        self._list.append((set_key, set_value))\n        return value"),
    ("copy list", F, "MutableHeaders(raw=self._list[:])", "MutableHeaders(raw=list(self._list))"),
    ("encode helper", F, ["        append_key = key.lower().encode(\"latin-1\")\n        append_value = value.encode(\"latin-1\")\n        self._list.append((append_key, append_value))", "class State:"], ["        self._list.append(_encode_header(key, value))", "def _encode_header(key: str, value: str) -> tuple[bytes, bytes]:\n    return key.lower().encode(\"latin-1\"), value.encode(\"latin-1\")\n\n\nclass State:"]),
    ("values comprehension", F, "        return [value.decode(\"latin-1\") for key, value in self._list]", "        return [value for _, value in self.items()]"),
]
