"""Random parts of OpenAPI documents, of the form which a configuration can state
(in the tagged form of spec/Values.tla). Fields which are empty, false or unknown
to the tool's model are left out: see DESIGN.md, known limits."""
import gen

WORDS = ["x", "pet", "A b", "é", "a.b", "~", "%", "<b>", "#1", "y/z", "line\nbreak", "\"q\"", "null", "1", "true", "`t`", " pad"]
KEYS = ["A", "B", "Pet", "x-y", "a.b", "é", "a/b", "~0", "%", "0", "name", "description", "type", "title", "version", "value",
        "in", "content", "default", "enum", "example", "schema"]
MIMES = ["application/json", "text/plain", "*/*", "application/vnd.a.b+json"]
METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]


class Oas:
    def __init__(self, r, p=.3, refs=("#/components/schemas/Pet",), odd=.5, callbacks=True):
        self.r, self.p, self.refs, self.odd, self.callbacks = r, p, list(refs), odd, callbacks

    def pick(self, must, **fs):
        o = {k: f() for k, f in must.items()}
        for k, f in fs.items():
            k = {"in_": "in", "not_": "not"}.get(k, k)
            if self.r.random() < self.p:
                o[k] = f()
        return gen.obj(o)

    def text(self):
        return gen.t(self.r.choice(WORDS))

    def yes(self):
        return gen.b(True)

    def count(self):
        return gen.num(self.r.choice([0, 1, 2, 10, 255]))

    def number(self):
        return gen.num(self.r.choice(["0", "1", "-1.5", "100", "0.25", "1000000"]))

    def any(self):
        return gen.value(self.r, 2, self.odd)

    def some(self, f, lo=1, hi=2):
        return gen.arr([f() for _ in range(self.r.randint(lo, hi))])

    def map(self, f, keys=KEYS, lo=1, hi=2):
        return gen.obj({k: f() for k in self.r.sample(keys, min(len(keys), self.r.randint(lo, hi)))})

    def ref(self):
        return gen.t(self.r.choice(self.refs))

    def schema(self, depth=2):
        if self.refs and self.r.random() < .3:
            return gen.obj({"$ref": self.ref()})
        fs = dict(nullable=self.yes, readOnly=self.yes, writeOnly=self.yes, deprecated=self.yes, title=self.text,
                  multipleOf=self.number, maximum=self.number, minimum=self.number, exclusiveMaximum=self.yes,
                  exclusiveMinimum=self.yes, maxLength=self.count, minLength=self.count, pattern=self.text, maxItems=self.count,
                  minItems=self.count, uniqueItems=self.yes, maxProperties=self.count, minProperties=self.count,
                  required=lambda: self.some(self.text), description=self.text, format=self.text,
                  enum=lambda: self.some(self.any), example=self.any, default=self.any,
                  type=lambda: gen.t(self.r.choice(["string", "object", "array", "integer"])),
                  xml=lambda: self.pick({"name": self.text}, namespace=self.text, prefix=self.text, attribute=self.yes,
                                        wrapped=self.yes),
                  externalDocs=self.docs, discriminator=lambda: self.pick({"propertyName": self.text},
                                                                          mapping=lambda: self.map(self.text)))
        ks = self.r.sample(sorted(fs), self.r.randint(0, 4))
        o = {k: fs[k]() for k in ks}
        if depth > 0:
            sub = lambda: self.schema(depth - 1)
            for k, f in dict(items=sub, additionalProperties=sub, not_=sub, properties=lambda: self.map(sub),
                             allOf=lambda: self.some(sub), oneOf=lambda: self.some(sub), anyOf=lambda: self.some(sub)).items():
                if self.r.random() < .15:
                    o["not" if k == "not_" else k] = f()
        return gen.obj(o)

    def docs(self):
        return self.pick({"description": self.text}, url=self.text)

    def info(self):
        return self.pick({}, title=self.text, version=self.text, description=self.text, termsOfService=self.text,
                         contact=lambda: self.pick({"name": self.text}, url=self.text, email=self.text),
                         license=lambda: self.pick({"name": self.text}, url=self.text))

    def server(self):
        return self.pick({"url": lambda: gen.t(self.r.choice(["/", "https://a.b/{v}", "x"]))}, description=self.text,
                         variables=lambda: self.map(lambda: self.pick({"default": self.text}, enum=lambda: self.some(self.text),
                                                                      description=self.text)))

    def tag(self):
        return self.pick({"name": self.text}, description=self.text, externalDocs=self.docs)

    def requirement(self):
        return self.map(lambda: self.some(self.text, 0, 2), lo=0)

    def example(self):
        return self.pick({}, summary=self.text, description=self.text, externalValue=self.text, value=self.filled)

    def filled(self):
        v = self.any()
        return gen.num(7) if v == gen.NULL or v == gen.t("") else v

    def media(self):
        return self.pick({}, schema=self.schema, example=self.any, examples=lambda: self.map(self.example),
                         encoding=lambda: self.map(lambda: self.pick(
                             {}, contentType=self.text, style=self.text, explode=self.yes, allowReserved=self.yes)))

    def content(self):
        return self.map(self.media, MIMES)

    def header(self):
        return self.pick({"explode": lambda: gen.b(self.r.random() < .5)}, description=self.text, required=self.yes,
                         deprecated=self.yes, allowEmptyValue=self.yes, style=self.text, allowReserved=self.yes,
                         schema=self.schema, example=self.any, examples=lambda: self.map(self.example), content=self.content)

    def parameter(self):
        return self.pick({"explode": lambda: gen.b(self.r.random() < .5), "name": self.text,
                          "in": lambda: gen.t(self.r.choice(["query", "header", "path", "cookie"]))},
                         description=self.text, required=self.yes,
                         deprecated=self.yes, allowEmptyValue=self.yes, style=self.text, allowReserved=self.yes,
                         schema=self.schema, example=self.any, examples=lambda: self.map(self.example), content=self.content)

    def link(self):
        expr = lambda: self.text() if self.r.random() < .5 else self.filled()
        return self.pick({}, operationRef=self.text, operationId=self.text, description=self.text, server=self.server,
                         parameters=lambda: self.map(expr), requestBody=expr)

    def response(self):
        return self.pick({}, description=self.text, headers=lambda: self.map(self.header), content=self.content,
                         links=lambda: self.map(self.link))

    def body(self):
        return self.pick({}, description=self.text, content=self.content, required=self.yes)

    def flow(self):
        return self.pick({}, authorizationUrl=self.text, tokenUrl=self.text, refreshUrl=self.text)

    def scheme(self):
        return self.pick({"type": lambda: gen.t(self.r.choice(["http", "apiKey", "oauth2"]))}, description=self.text,
                         name=self.text, in_=self.text, scheme=self.text, bearerFormat=self.text, openIdConnectUrl=self.text,
                         flows=lambda: self.pick({}, implicit=self.flow, password=self.flow, clientCredentials=self.flow,
                                                 authorizationCode=self.flow))

    def callback(self, depth=1):
        return self.map(lambda: self.item(depth - 1), ["{$request.body#/url}", "http://x/{$y}", "/cb"])

    def operation(self, depth=1):
        cb = dict(callbacks=lambda: self.map(lambda: self.callback(depth))) if depth > 0 and self.callbacks else {}
        return self.pick({}, tags=lambda: self.some(self.text), summary=self.text, description=self.text, externalDocs=self.docs,
                         operationId=self.text, parameters=lambda: self.some(self.parameter), requestBody=self.body,
                         responses=lambda: self.map(self.response, ["200", "404", "default", "5XX"]), deprecated=self.yes,
                         security=lambda: self.some(self.requirement), servers=lambda: self.some(self.server), **cb)

    def item(self, depth=1):
        o = {m: self.operation(depth) for m in self.r.sample(METHODS, self.r.choice([0, 1, 1, 2]))}
        for k, f in dict(summary=self.text, description=self.text, servers=lambda: self.some(self.server),
                         parameters=lambda: self.some(self.parameter)).items():
            if self.r.random() < self.p / 2:
                o[k] = f()
        return gen.obj(o)

    def components(self, kinds=None):
        fs = dict(schemas=self.schema, responses=self.response, parameters=self.parameter, examples=self.example,
                  requestBodies=self.body, headers=self.header, securitySchemes=self.scheme, links=self.link,
                  callbacks=self.callback)
        ks = kinds or self.r.sample(sorted(fs), self.r.randint(0, 4))
        return gen.obj({k: self.map(fs[k]) for k in ks})

    def root(self, paths=False):
        fs = dict(info=self.info, servers=lambda: self.some(self.server), security=lambda: self.some(self.requirement),
                  tags=lambda: self.some(self.tag), externalDocs=self.docs, components=self.components)
        if paths:
            fs["paths"] = lambda: self.map(lambda: self.item(0), ["/a", "/b/{id}", "/", "/a.b"])
        return gen.obj({k: fs[k]() for k in sorted(fs) if self.r.random() < .5})
