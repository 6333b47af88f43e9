T = "templating.py"
BAD = [
    ('proc-request', 'templating.py', '            context.update(context_processor(request))', '            context.update({k: v for k, v in context_processor(request).items() if k != "request"})'),
    ("mutate", T, "        context = dict(context or {})\n", "        context = context or {}\n"),
    ("none", T, "context = dict(context or {})", "context = dict(context)"),
    ("request-set", T, 'context.setdefault("request", request)', 'context["request"] = request'),
    ("processors-setdefault", T, "            context.update(context_processor(request))", "            for k, v in context_processor(request).items():\n                context.setdefault(k, v)"),
    ("processors-reversed", T, "in self.context_processors:", "in reversed(self.context_processors):"),
    ("processors-first", T, '        context.setdefault("request", request)\n        for context_processor in self.context_processors:\n            context.update(context_processor(request))\n', '        for context_processor in self.context_processors[:1]:\n            context.update(context_processor(request))\n        context.setdefault("request", request)\n'),
    ("new-status-pos", T, 'status_code = args[3] if len(args) > 3 else', 'status_code = args[3] if len(args) > 4 else'),
    ("new-headers-kw", T, 'headers = args[4] if len(args) > 4 else kwargs.get("headers")', 'headers = args[4] if len(args) > 4 else None'),
    ("old-background", T, 'background = args[5] if len(args) > 5 else kwargs.get("background")', 'background = kwargs.get("background")'),
    ("old-media", T, 'media_type = args[4] if len(args) > 4 else kwargs.get("media_type")', 'media_type = args[4] if len(args) > 5 else kwargs.get("media_type")'),
    ("kw-status", T, '            status_code = kwargs.get("status_code", 200)\n            headers = kwargs', '            status_code = 200\n            headers = kwargs'),
    ("kw-request", T, 'request = kwargs.get("request", context.get("request"))', 'request = context.get("request", kwargs.get("request"))') if False else ("kw-no-request", T, 'request = kwargs.get("request", context.get("request"))', 'request = kwargs.get("request")'),
    ("background-dropped", T, "            background=background,\n        )", "        )"),
    ("media-dropped", T, "            media_type=media_type,\n", ""),
    ("headers-dropped", T, "            headers=headers,\n", ""),
    ("debug-always", T, '        if "http.response.debug" in extensions:  # pragma: no branch\n', '        if extensions is not None:\n'),
    ("debug-late", T, '        await super().__call__(scope, receive, send)\n', '') if False else ("debug-info", T, '"context": self.context,', '"context": {},'),
    ("debug-key", T, 'if "http.response.debug" in extensions', 'if "http.response.push" in extensions'),
    ("url-for-override", T, 'env.globals.setdefault("url_for", url_for)', 'env.globals["url_for"] = url_for'),
    ("url-for-params", T, "return request.url_for(name, **path_params)", "return request.url_for(name)"),
    ("url-for-posonly", T, "            name: str,\n            /,\n", "            name: str,\n"),
    ("no-autoescape", T, 'env_options.setdefault("autoescape", True)', 'env_options.setdefault("autoescape", False)'),
    ("autoescape-forced", T, 'env_options.setdefault("autoescape", True)', 'env_options["autoescape"] = True'),
    ("either", T, "assert bool(directory) ^ bool(env)", "assert bool(directory) or bool(env)"),
    ("render-twice", T, "        content = template.render(context)\n", "        template.render(context)\n        content = template.render(context)\n"),
    ("shared-default", T, '    def TemplateResponse(self, *args: typing.Any, **kwargs: typing.Any) -> _TemplateResponse:\n', '    _ctx: typing.Any = {}\n\n    def TemplateResponse(self, *args: typing.Any, **kwargs: typing.Any) -> _TemplateResponse:\n        if kwargs.get("context") is None and len(args) < 3:\n            kwargs["context"] = self._ctx\n') if False else ("processor-cached", T, "            context.update(context_processor(request))", "            self._seen = getattr(self, \"_seen\", {})\n            if context_processor not in self._seen:\n                self._seen[context_processor] = context_processor(request)\n            context.update(self._seen[context_processor])"),
    ("env-ignored", T, "            self.env = env\n", "            self.env = jinja2.Environment(autoescape=True)\n"),
    ("loader-forced", T, 'env_options.setdefault("loader", loader)', 'env_options["loader"] = loader'),
]
GOOD = [
    ("copy-spread", T, '        context = dict(context or {})\n        context.setdefault("request", request)\n', '        context = {"request": request, **(context or {})}\n'),
    ("processor-helper", T, "            context.update(context_processor(request))", "            extra = context_processor(request)\n            for key, value in extra.items():\n                context[key] = value"),
    ("get-inline", T, "        template = self.get_template(name)\n        return _TemplateResponse(\n            template,\n", "        return _TemplateResponse(\n            self.env.get_template(name),\n"),
    ("debug-early", T, '        request = self.context.get("request", {})\n        extensions = request.get("extensions", {})\n        if "http.response.debug" in extensions:  # pragma: no branch\n', '        request = self.context.get("request") or {}\n        if "http.response.debug" in request.get("extensions", {}):\n'),
    ("url-for-direct", T, '            request: Request = context["request"]\n            return request.url_for(name, **path_params)', '            return context["request"].url_for(name, **path_params)'),
    ("globals-if", T, '        env.globals.setdefault("url_for", url_for)', '        if "url_for" not in env.globals:\n            env.globals["url_for"] = url_for'),
]
