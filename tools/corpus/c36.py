F = "staticfiles.py"
R = "responses.py"
BAD = [
    ("ims after inm", F, "            return etag in [tag.strip(\" W/\") for tag in if_none_match.split(\",\")]", "            if etag in [tag.strip(\" W/\") for tag in if_none_match.split(\",\")]:\n                return True"),
    ("no weak", F, 'tag.strip(" W/")', 'tag.strip(" ")'),
    ("no strip", F, 'tag.strip(" W/")', 'tag'),
    ("first only", F, 'if_none_match.split(",")]', 'if_none_match.split(",")[:1]]'),
    ("substring", F, 'return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]', "return etag.strip('\"') in if_none_match"),
    ("case", F, 'return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]', 'return etag.lower() in [tag.strip(" W/").lower() for tag in if_none_match.split(",")]'),
    ("strict later", F, "if_modified_since >= last_modified", "if_modified_since > last_modified"),
    ("reversed", F, "if_modified_since >= last_modified", "if_modified_since <= last_modified"),
    ("equal only", F, "if_modified_since >= last_modified", "if_modified_since == last_modified"),
    ("none check", F, "if_modified_since is not None and last_modified is not None and", "last_modified is not None and"),
    ("date only", F, "if_modified_since >= last_modified", "if_modified_since[:3] >= last_modified[:3]"),
    ("ims ignored", F, "                return True\n        except KeyError:\n            pass\n\n        return False", "                return False\n        except KeyError:\n            pass\n\n        return False"),
    ("304 keeps length", F, '        "vary",\n', '        "vary",\n        "content-length",\n'),
    ("304 loses vary", F, '        "vary",\n', ''),
    ("304 drops etag", F, '        "etag",\n', ''),
    ("304 as 200", F, "status_code=304", "status_code=200"),
    ("headers swapped", F, "self.is_not_modified(response.headers, request_headers)", "self.is_not_modified(request_headers, response.headers)"),
    ("string dates", F, "parsedate(request_headers", "(request_headers"),
]
GOOD = [
    ("any", F, 'return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]', 'return any(tag.strip(" W/") == etag for tag in if_none_match.split(","))'),
    ("removeprefix", F, 'return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]', 'return etag in {tag.strip().removeprefix("W/") for tag in if_none_match.split(",")}'),
    ("get", F, """        try:
            if_modified_since = parsedate(request_headers["if-modified-since"])
            last_modified = parsedate(response_headers["last-modified"])
            if if_modified_since is not None and last_modified is not None and if_modified_since >= last_modified:
                return True
        except KeyError:
            pass

        return False""", """        ims = request_headers.get("if-modified-since")
        lm = response_headers.get("last-modified")
        if ims is None or lm is None:
            return False
        if_modified_since, last_modified = parsedate(ims), parsedate(lm)
        return if_modified_since is not None and last_modified is not None and not if_modified_since < last_modified"""),
    ("helper", F, "        if self.is_not_modified(response.headers, request_headers):\n            return NotModifiedResponse(response.headers)\n        return response", "        not_modified = self.is_not_modified(response.headers, request_headers)\n        return NotModifiedResponse(response.headers) if not_modified else response"),
    ("not modified headers", F, "{name: value for name, value in headers.items() if name in self.NOT_MODIFIED_HEADERS}", "{name: headers[name] for name in self.NOT_MODIFIED_HEADERS if name in headers}"),
]
