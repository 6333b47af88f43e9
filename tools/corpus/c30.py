F = "datastructures.py"
BAD = [
    ("first wins", F, "        self._dict = {k: v for k, v in _items}\n        self._list = _items", "        self._dict = {}\n        for k, v in _items:\n            self._dict.setdefault(k, v)\n        self._list = _items"),
    ("alias list", F, "            _items = list(value)\n", "            _items = value\n"),
    ("alias multi", F, "            _items = list(value.multi_items())", "            _items = value._list"),
    ("multi items alias", F, "        return list(self._list)\n\n    def __getitem__(self, key: _KeyType)", "        return self._list\n\n    def __getitem__(self, key: _KeyType)"),
    ("multi as mapping", F, 'if hasattr(value, "multi_items")', "if False"),
    ("kwargs only dict", F, "value = ImmutableMultiDict(value).multi_items() + ImmutableMultiDict(kwargs).multi_items()", "value = {**dict(value), **kwargs}"),
    ("kwargs first", F, "value = ImmutableMultiDict(value).multi_items() + ImmutableMultiDict(kwargs).multi_items()", "value = ImmutableMultiDict(kwargs).multi_items() + ImmutableMultiDict(value).multi_items()"),
    ("del list kept", F, "        self._list = [(k, v) for k, v in self._list if k != key]\n        del self._dict[key]", "        del self._dict[key]"),
    ("del dict kept", F, "        del self._dict[key]", "        pass"),
    ("pop list kept", F, "        self._list = [(k, v) for k, v in self._list if k != key]\n        return self._dict.pop(key, default)", "        return self._dict.pop(key, default)"),
    ("pop no default", F, "return self._dict.pop(key, default)", "return self._dict.pop(key)"),
    ("popitem list kept", F, "        key, value = self._dict.popitem()\n        self._list = [(k, v) for k, v in self._list if k != key]\n", "        key, value = self._dict.popitem()\n"),
    ("poplist kept", F, "        self.pop(key)\n        return values", "        return values"),
    ("poplist last", F, "        values = [v for k, v in self._list if k == key]\n        self.pop(key)\n        return values", "        return [self.pop(key)]"),
    ("clear dict only", F, "        self._list.clear()", "        pass"),
    ("setdefault no list", F, "            self._list.append((key, default))", "            pass"),
    ("setdefault overwrites", F, "        if key not in self:\n            self._dict[key] = default", "        if not self.getlist(key) or self[key] is None:\n            self._dict[key] = default\n        if key not in self._dict:\n            self._dict[key] = default"),
    ("setdefault returns default", F, "        return self[key]\n\n    def setlist", "        return default\n\n    def setlist"),
    ("setlist first", F, "self._dict[key] = values[-1]", "self._dict[key] = values[0]"),
    ("setlist appends", F, "existing_items = [(k, v) for (k, v) in self._list if k != key]\n            self._list = existing_items + [(key", "existing_items = list(self._list)\n            self._list = existing_items + [(key"),
    ("setlist empty keeps", F, "            self.pop(key, None)\n", "            self._dict.pop(key, None)\n"),
    ("append no dict", F, "        self._list.append((key, value))\n        self._dict[key] = value", "        self._list.append((key, value))\n        self._dict.setdefault(key, value)"),
    ("append replaces", F, "        self._list.append((key, value))\n        self._dict[key] = value", "        self.setlist(key, [value])"),
    ("update keeps", F, "existing_items = [(k, v) for (k, v) in self._list if k not in value.keys()]", "existing_items = list(self._list)"),
    ("update collapses", F, "self._list = existing_items + value.multi_items()", "self._list = existing_items + list(value.items())"),
    ("update dict", F, "        self._dict.update(value)", "        self._dict = {**dict(value), **self._dict}"),
    ("query bytes utf8 blank", F, 'parse_qsl(value.decode("latin-1"), keep_blank_values=True)', 'parse_qsl(value.decode("latin-1"))'),
    ("query str blank", F, "parse_qsl(value, keep_blank_values=True)", "parse_qsl(value)"),
    ("query no str", F, "        self._list = [(str(k), str(v)) for k, v in self._list]\n", ""),
    ("contains list", F, "        return key in self._dict\n", "        return bool(self._dict.get(key))\n"),
    ("len all", F, "        return len(self._dict)\n", "        return len(self._list)\n"),
    ("iter all", F, "        return iter(self.keys())\n\n    def __len__(self) -> int:\n        return len(self._dict)", "        return iter([k for k, v in self._list])\n\n    def __len__(self) -> int:\n        return len(self._dict)"),
    ("getlist order", F, "return [item_value for item_key, item_value in self._list if item_key == key]", "return [item_value for item_key, item_value in reversed(self._list) if item_key == key]"),
    ("query mutable", F, "class QueryParams(ImmutableMultiDict[str, str]):", "class QueryParams(MultiDict):"),
    ("headers append", F, "    def mutablecopy(self) -> MutableHeaders:", "    def append(self, key: str, value: str) -> None:\n        self._list.append((key.lower().encode(), value.encode()))\n\n    def mutablecopy(self) -> MutableHeaders:"),
]
GOOD = [
    ("lookup loop", F, "        self._dict = {k: v for k, v in _items}\n        self._list = _items", "        self._list = _items\n        self._dict = {}\n        for k, v in _items:\n            self._dict[k] = v"),
    ("dict call", F, "        self._dict = {k: v for k, v in _items}\n", "        self._dict = dict(_items)\n"),
    ("discard helper", F, ["        self._list = [(k, v) for k, v in self._list if k != key]\n        del self._dict[key]", "        self._list = [(k, v) for k, v in self._list if k != key]\n        return self._dict.pop(key, default)", "class QueryParams("], ["        self._discard(key)\n        del self._dict[key]", "        self._discard(key)\n        return self._dict.pop(key, default)\n\n    def _discard(self, key: typing.Any) -> None:\n        self._list = [item for item in self._list if item[0] != key]", "class QueryParams("]),
    ("setlist extend", F, "            self._list = existing_items + [(key, value) for value in values]\n", "            self._list = existing_items\n            for value in values:\n                self._list.append((key, value))\n"),
    ("poplist getlist", F, "        values = [v for k, v in self._list if k == key]\n        self.pop(key)", "        values = self.getlist(key)\n        self.pop(key, None)"),
    ("clear new", F, "        self._dict.clear()\n        self._list.clear()", "        self._dict = {}\n        self._list = []"),
    ("setdefault append", F, "            self._dict[key] = default\n            self._list.append((key, default))\n\n        return self[key]", "            self.append(key, default)\n        return self._dict[key]"),
    ("update filter", F, "existing_items = [(k, v) for (k, v) in self._list if k not in value.keys()]", "existing_items = [item for item in self._list if item[0] not in value]"),
    ("getlist loop", F, "        return [item_value for item_key, item_value in self._list if item_key == key]\n\n    def keys(self) -> typing.KeysView", "        found = []\n        for item_key, item_value in self._list:\n            if item_key == key:\n                found.append(item_value)\n        return found\n\n    def keys(self) -> typing.KeysView"),
    ("isinstance", F, 'elif hasattr(value, "multi_items"):', "elif isinstance(value, ImmutableMultiDict):"),
]
