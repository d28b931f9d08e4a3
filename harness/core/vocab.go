package main

// vocabulary is the words that a program may treat specially: those of the
// language, of the schema's JSON, of Go and of the targets.  Each stands at
// every position of a name and of a value.
var vocabulary = []string{
	"webrpc", "name", "version", "basepath", "import", "type", "enum", "struct", "error", "errors", "service", "services", "types",
	"map", "string", "stream", "proxy", "HTTP", "http", "annotations", "methods", "inputs", "outputs", "fields", "extra", "message", "code", "json", "meta",
	"int", "int8", "uint64", "byte", "bool", "any", "null", "float64", "bigint", "timestamp",
	"Type", "Enum", "Struct", "Error", "Service", "Map", "String", "Stream", "Proxy", "WebRPC", "Import", "Null", "INT",
	"true", "false", "True", "TRUE", "nil", "none", "None", "undefined", "NaN", "inf", "yes", "no", "on", "off", "all", "default", "public", "internal",
	"constructor", "toString", "self", "this", "func", "var", "go", "ts", "omitempty", "id", "ID", "x", "X", "a", "v1",
}

// wordValues is the vocabulary together with values that are not names.
var wordValues = append([]string{
	"0", "1", "-1", "-", "_", "00", "0x1F", "1e3", "1.0", "v1.0.0", "65535", "65536", "2147483648", "18446744073709551615", "99999999999999999999",
	"=", "*", "?", "@", ":", "a:b", "@a", "a=b", "1,2", "{}", "[]", "()", "nil,", "<nil>", "\u00e9", "\U0001f600", "a b", " a", "a ", "  ", "true ", "%s", "%", "$x", "'", "`", "&lt;", "//", "/*", "https://x.y/z?q=1#f", "2006-01-02T15:04:05Z",
}, vocabulary...)

// markValues has every ASCII punctuation mark once, twice and three times,
// alone, first, last, amid and around a word.
var markValues = func() (out []string) {
	for c := byte('!'); c <= '~'; c++ {
		if c == '\\' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			continue
		}
		m := string(c)
		out = append(out, m, m+m, m+m+m, m+"w", m+m+"w", "w"+m, "w"+m+m, "w"+m+m+m, "w"+m+"w", "w"+m+m+"w", "w "+m+" w", "w w"+m, m+" w", m+"w"+m, m+"w w"+m, m+"w"+m+"w"+m)
	}
	return out
}()

// commentWords are beginnings of comments that tools look for.
var commentWords = append([]string{
	"TODO", "TODO:", "TODO(me):", "FIXME", "XXX", "HACK", "NOTE:", "BUG", "Deprecated:", "@deprecated", "nolint", "nolint:all", "go:generate", "go:build", "+build", "eslint-disable", "ts-ignore", "@ts-ignore", "region", "endregion", "pragma", "include", "define", "if", "endif", "line 7",
	"/*", "*/", "//", "///", "/**", "*", "<!--", "-->", "--", "----------", "==========", "##########", "...", "1.", "1)", "- a", "* a", "> a", "```", "<br>", "&amp;", "$ref", "${x}", "{{x}}", "%s", "\\n", "\\", "C:\\dir", "a\\", "e.g.", "i.e.", "x != y", "x ! y", "x!", "wow! yes", "! x", "(!)", "true", "Copyright (c) 2024", "SPDX-License-Identifier: MIT", "-*- coding: utf-8 -*-",
}, vocabulary...)
