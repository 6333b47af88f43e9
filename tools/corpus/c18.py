F = "authentication.py"
U = "_utils.py"
BAD = [
    ("any", F, '''    for scope in scopes:
        if scope not in conn.auth.scopes:
            return False
    return True''', '''    return any(scope in conn.auth.scopes for scope in scopes)'''),
    ("first", F, '''            return False
    return True''', '''            return False
        return True
    return True'''),
    ("chars", F, 'scopes_list = [scopes] if isinstance(scopes, str) else list(scopes)', 'scopes_list = list(scopes)'),
    ("notawaited-close", F, '''                    await websocket.close()
                else:
                    await func(*args, **kwargs)''', '''                    await websocket.close()
                await func(*args, **kwargs)'''),
    ("status", F, '''                    raise HTTPException(status_code=status_code)
                return await func''', '''                    raise HTTPException(status_code=403)
                return await func'''),
    ("sync-nocheck", F, '''                if not has_required_scope(request, scopes_list):
                    if redirect is not None:
                        orig_request_qparam = urlencode({"next": str(request.url)})
                        next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return func''', '''                if redirect is not None and not has_required_scope(request, scopes_list):
                    orig_request_qparam = urlencode({"next": str(request.url)})
                    next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                    return RedirectResponse(url=next_url, status_code=303)
                return func'''),
    ("redirect-truthy-first", F, '''                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return await''', '''                        return RedirectResponse(url=next_url, status_code=307)
                    raise HTTPException(status_code=status_code)
                return await'''),
    ("nonext", F, '''urlencode({"next": str(request.url)})
                        next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return await''', '''urlencode({"next": request.method})
                        next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return await'''),
    ("args0", F, '''args[idx] if idx < len(args) else None)
                assert isinstance(request, Request)

                if not has_required_scope(request, scopes_list):
                    if redirect is not None:
                        orig_request_qparam = urlencode({"next": str(request.url)})
                        next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return await''', '''args[0] if args else None)
                assert isinstance(request, Request)

                if not has_required_scope(request, scopes_list):
                    if redirect is not None:
                        orig_request_qparam = urlencode({"next": str(request.url)})
                        next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return await'''),
    ("asyncobj", U, ' or (callable(obj) and inspect.iscoroutinefunction(obj.__call__))', ''),
    ("substring", F, 'if scope not in conn.auth.scopes:', 'if scope not in " ".join(conn.auth.scopes):'),
    ("user-only", F, 'if scope not in conn.auth.scopes:', 'if scope not in conn.auth.scopes and not conn.user.is_authenticated:'),
    ("else-norefuse", F, '''            raise Exception(f'No "request" or "websocket" argument on function "{func}"')''', '''            idx, type_ = 0, "request"'''),
]
GOOD = [
    ("all", F, '''    for scope in scopes:
        if scope not in conn.auth.scopes:
            return False
    return True''', '''    return all(scope in conn.auth.scopes for scope in scopes)'''),
    ("subset", F, '''    for scope in scopes:
        if scope not in conn.auth.scopes:
            return False
    return True''', '''    return set(scopes).issubset(conn.auth.scopes)'''),
    ("subset2", F, '''    for scope in scopes:
        if scope not in conn.auth.scopes:
            return False
    return True''', '''    return set(scopes) <= set(conn.auth.scopes)'''),
    ("missing", F, '''    for scope in scopes:
        if scope not in conn.auth.scopes:
            return False
    return True''', '''    missing = [scope for scope in scopes if scope not in conn.auth.scopes]
    return not missing'''),
    ("helper", F, ['''                if not has_required_scope(request, scopes_list):
                    if redirect is not None:
                        orig_request_qparam = urlencode({"next": str(request.url)})
                        next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return await func(*args, **kwargs)''', '''                if not has_required_scope(request, scopes_list):
                    if redirect is not None:
                        orig_request_qparam = urlencode({"next": str(request.url)})
                        next_url = f"{request.url_for(redirect)}?{orig_request_qparam}"
                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return func(*args, **kwargs)''', '''    def decorator(
'''], ['''                if has_required_scope(request, scopes_list):
                    return await func(*args, **kwargs)
                return denied(request)''', '''                if has_required_scope(request, scopes_list):
                    return func(*args, **kwargs)
                return denied(request)''', '''    def denied(request: Request) -> RedirectResponse:
        if redirect is None:
            raise HTTPException(status_code=status_code)
        query = urlencode({"next": str(request.url)})
        return RedirectResponse(url=str(request.url_for(redirect)) + "?" + query, status_code=303)

    def decorator(
''']),
    ("getconn", F, ['''                websocket = kwargs.get("websocket", args[idx] if idx < len(args) else None)
'''], ['''                if "websocket" in kwargs:
                    websocket = kwargs["websocket"]
                else:
                    websocket = args[idx]
''']),
    ("names", F, '''        for idx, parameter in enumerate(sig.parameters.values()):
            if parameter.name == "request" or parameter.name == "websocket":
                type_ = parameter.name
                break
        else:''', '''        for idx, name in enumerate(sig.parameters):
            if name in ("request", "websocket"):
                type_ = name
                break
        else:'''),
]
GOOD += [
    ("difference", F, '''    for scope in scopes:
        if scope not in conn.auth.scopes:
            return False
    return True''', '''    return not (set(scopes) - set(conn.auth.scopes))'''),
    ("issuperset", F, '''    for scope in scopes:
        if scope not in conn.auth.scopes:
            return False
    return True''', '''    granted = frozenset(conn.auth.scopes)
    return granted.issuperset(scopes)'''),
]
