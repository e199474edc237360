"""Keys which a configuration can state: each reaches the document as stated."""
import gen
from props import c20

S = {"type": "string"}


def comp(kind, v):
    return {"components": {kind: {"X": v}}}


# what goes through as stated
FINE = [
    comp("parameters", {"name": "q", "in": "query", "explode": True, "schema": S}),
    comp("headers", {"explode": True, "schema": S}),
    comp("schemas", {"type": "object", "additionalProperties": {}}),
    comp("schemas", {"type": "object", "additionalProperties": {"type": "integer"}}),
    comp("schemas", {"type": "integer", "minimum": 0, "maximum": 0}),
    comp("schemas", {"type": "integer", "minimum": -1, "exclusiveMinimum": True, "maximum": 10, "exclusiveMaximum": True}),
    comp("schemas", {"type": "string", "minLength": 0, "maxLength": 0}),
    comp("schemas", {"type": "array", "minItems": 0, "maxItems": 3, "uniqueItems": True, "items": S}),
    comp("schemas", {"type": "object", "minProperties": 0, "maxProperties": 2}),
    comp("schemas", {"type": "string", "default": ""}),
    comp("schemas", {"type": "integer", "default": 0, "example": 0}),
    comp("schemas", {"type": "boolean", "default": False, "example": False}),
    comp("schemas", {"type": "string", "enum": ["a", ""]}),
    comp("schemas", {"enum": [None, 0, "", False]}),
    comp("schemas", {"type": "string", "pattern": "^\\d+$", "format": "x", "title": "t", "description": "d"}),
    comp("schemas", {"type": "string", "readOnly": True, "nullable": True, "deprecated": True}),
    comp("schemas", {"type": "string", "writeOnly": True}),
    comp("schemas", {"type": "array", "items": {}}),
    comp("schemas", {"type": "object", "properties": {"a": {}}, "required": ["a"]}),
    comp("schemas", {"type": "object", "properties": {"a.b": S, "~": S, "a/b": S, "": S, "$ref": S}}),
    comp("schemas", {"allOf": [S, {"not": {}}], "oneOf": [{"$ref": "#/components/schemas/Y"}], "anyOf": [{}]}),
    comp("schemas", {"type": "object", "discriminator": {"propertyName": "x", "mapping": {"a": "#/a"}}}),
    comp("schemas", {"type": "object", "discriminator": {"propertyName": "x"}}),
    comp("schemas", {"type": "string", "externalDocs": {"url": "https://a"}}),
    comp("schemas", {"type": "string", "xml": {"attribute": True}}),
    comp("schemas", {"type": "array", "items": S, "xml": {"name": "n", "namespace": "https://n", "prefix": "p", "wrapped": True}}),
    comp("schemas", {"type": "number", "multipleOf": 0.1, "minimum": 1.5, "maximum": 1e21}),
    comp("schemas", {"type": "integer", "example": 9007199254740993}),
    comp("schemas", {"type": "object", "example": {"a": [1, None, {"b": False}]}}),
    comp("links", {"operationId": "x", "parameters": {"a": "$request.body"}, "requestBody": 1}),
    comp("links", {"operationRef": "#/paths/~1a/get", "server": {"url": "/"}}),
    comp("callbacks", {"$request.url": {"post": {"responses": {"200": {"description": "x"}}}}}),
    comp("examples", {"value": {"a": None, "b": False}, "summary": "s", "description": "d"}),
    comp("examples", {"value": False}),
    comp("examples", {"externalValue": "https://x"}),
    comp("responses", {"description": "d", "content": {"a/b": {}}}),
    comp("responses", {"description": "d", "content": {"a/b": {"examples": {"a": {"value": 0}}}}}),
    comp("responses", {"description": "d", "links": {"l": {"operationId": "x"}}}),
    comp("requestBodies", {"required": True, "description": "d", "content": {"a/*": {"schema": S}}}),
    comp("securitySchemes", {"type": "apiKey", "name": "x", "in": "header"}),
    comp("securitySchemes", {"type": "http", "scheme": "bearer", "bearerFormat": "JWT"}),
    comp("securitySchemes", {"type": "openIdConnect", "openIdConnectUrl": "https://x"}),
    {"externalDocs": {"url": "https://a"}},
    {"externalDocs": {"url": "https://a", "description": "d"}},
    {"info": {"title": "t", "version": "1", "description": "d", "termsOfService": "https://t"}},
    {"info": {"contact": {"email": "a@b", "name": "n", "url": "https://u"}, "license": {"name": "MIT", "url": "https://u"}}},
    {"info": {"contact": {"email": "a@b"}, "license": {"name": "MIT"}}},
    {"security": [{}]},
    {"security": [{"a": []}, {"b": ["r", "w"], "c": []}]},
    {"tags": [{"name": "a", "description": "d"}, {"name": "b", "externalDocs": {"url": "https://a"}}]},
    {"servers": [{"url": "/{v}", "variables": {"v": {"default": "a", "enum": ["", "a"], "description": "d"}}}]},
    {"servers": [{"url": "/", "description": "d"}]},
    {"paths": {"/b": {"get": {"responses": {"200": {"description": "x"}}}}}},
    {"paths": {"/a": {"get": {"tags": ["x"]}, "put": {"operationId": "o"}}}},
    {"paths": {"/b": {"summary": "s", "description": "d", "servers": [{"url": "/"}], "parameters": [{"name": "q", "in": "query", "explode": True}]}}},
    {"paths": {"/b": {m: {"operationId": m} for m in ("get", "put", "post", "delete", "options", "head", "patch", "trace")}}},
    {"operations": {"*": {"callbacks": {"C": {"$request.url": {"post": {"responses": {"200": {"description": "x"}}}}}}}}},
    {"operations": {"*": {"tags": ["a"], "deprecated": True, "summary": "s", "description": "d", "operationId": "o", "externalDocs": {"url": "https://a"}}}},
    {"operations": {"*": {"security": [{"a": []}], "servers": [{"url": "/"}]}}},
    {"operations": {"*": {"requestBody": {"required": True, "content": {"a/b": {"schema": S, "encoding": {"x": {"contentType": "t", "style": "form", "explode": True,
                                                                                                     "allowReserved": True}}}}}}}},
    {"operations": {"*": {"parameters": [{"name": "q", "in": "header", "explode": True, "required": True, "deprecated": True, "style": "simple"}]}}},
    {"operations": {"*": {"responses": {"200": {"description": "d"}, "default": {"$ref": "#/components/responses/D"}}}}},
]
# what does not (known_findings.jsonl)
LOST = {
    "explode of a parameter": comp("parameters", {"name": "q", "in": "query", "schema": S}),
    "explode of a header": comp("headers", {"schema": S}),
    "explode false of an encoding": comp("requestBodies", {"content": {"a/b": {"encoding": {"x": {"style": "form", "explode": False}}}}}),
    "scopes of an oauth flow": comp("securitySchemes", {"type": "oauth2", "flows": {"implicit": {"authorizationUrl": "https://a", "scopes": {"r": "read"}}}}),
    "additionalProperties false": comp("schemas", {"type": "object", "additionalProperties": False}),
    "extension of a schema": comp("schemas", {"type": "string", "x-foo": {"a": 1}}),
    "extension of info": {"info": {"title": "t", "version": "1", "x-foo": 1}},
    "false in a schema": comp("schemas", {"type": "string", "deprecated": False, "nullable": False}),
    "false in a parameter": comp("parameters", {"name": "q", "in": "query", "explode": True, "required": False, "schema": S}),
    "empty list in a schema": comp("schemas", {"type": "object", "required": [], "anyOf": []}),
    "empty string": {"tags": [{"name": "a", "description": ""}]},
    "empty default of a server variable": {"servers": [{"url": "/{v}", "variables": {"v": {"default": "", "enum": ["", "a"]}}}]},
    "empty security": {"security": []},
    "empty tags": {"tags": []},
}
LOSTOPS = {
    "explode of a referenced parameter": {"operations": {"*": {"parameters": [{"$ref": "#/components/parameters/P"}]}}},
    "explode of a referenced header": {"operations": {"*": {"responses": {"default": {"description": "x", "headers": {"H": {"$ref": "#/x"}}}}}}},
    "extension of an operation": {"operations": {"*": {"x-foo": 1}}},
    "empty security of an operation": {"operations": {"*": {"security": []}}},
    "empty values of an operation": {"operations": {"*": {"tags": [], "deprecated": False, "summary": ""}}},
    "empty description of a response": {"operations": {"*": {"responses": {"200": {"description": ""}}}}},
}


def case(r, cfg, fmt="json"):
    doc = gen.tag({"openapi": "3.0.0", "paths": {"/a": {"get": {}}}})
    c = c20.case(r, doc, fmt, cfg={k: gen.tag(v) for k, v in cfg.items()})
    c["order"] = ["*"] if "operations" in cfg else []
    return c


def fine(r, ops):
    return [case(r, c, f) for c in FINE if ("operations" in c) == ops for f in ("json", "yaml")]


def lost(r, ops):
    return [dict(case(r, c), name=n) for n, c in (LOSTOPS if ops else LOST).items()]
