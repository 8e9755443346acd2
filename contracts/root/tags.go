//go:build verif

package gotsrpc

import (
	"reflect"
	"strings"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// tagParts is the comma separated list a struct tag carries under a key.
//
//@ spec
func tagParts(tag, key string) gs.Seq[string] {
	return gs.SeqOf(strings.Split(reflect.StructTag(tag).Get(key), ","))
}

//@ spec
func tagPart(tag, key string, k int) string { return strings.TrimSpace(gs.Nth(tagParts(tag, key), k)) }

//@ spec
func hasOption(tag, key string, from int, option string) bool {
	return gs.Exists(func(k int) bool {
		return from <= k && k < gs.SeqLen(tagParts(tag, key)) && tagPart(tag, key, k) == option
	})
}

// ignored: the json tag "-" alone.
//
//@ spec
func ignored(tag string) bool {
	return tagPart(tag, "json", 0) == "-" && gs.SeqLen(tagParts(tag, "json")) == 1
}

//@ contract extractJSONInfo
func ctExtractJSONInfo(tag string, r *JSONInfo) {
	gs.Property("C18")
	gs.Ensures("a new description", r != nil && gs.Fresh(r))
	gs.Ensures("the JSON name", r.Name == gs.Ite(ignored(tag), "", tagPart(tag, "json", 0)))
	gs.Ensures("ignored exactly by the tag -", r.Ignore == ignored(tag))
	gs.Ensures("optional exactly by omitempty", r.OmitEmpty == hasOption(tag, "json", 1, "omitempty"))
	gs.Ensures("inherited exactly by inline", r.Inline == hasOption(tag, "json", 1, "inline"))
	gs.Ensures("a union exactly by the gotsrpc tag", r.Union == hasOption(tag, "gotsrpc", 0, "union"))
	gs.Ensures("a type only by the gotsrpc tag", gs.Implies(r.Type != "", gs.Exists(func(k int) bool {
		return 0 <= k && k < gs.SeqLen(tagParts(tag, "gotsrpc")) && strings.HasPrefix(tagPart(tag, "gotsrpc", k), "type:") && r.Type == strings.TrimPrefix(tagPart(tag, "gotsrpc", k), "type:")
	})))
	gs.Invariant("the JSON options so far are trimmed", func(i int, parts []string) bool {
		return len(parts) == gs.SeqLen(tagParts(tag, "json")) && gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(parts), parts[k] == gs.Ite(k < i, tagPart(tag, "json", k), gs.Nth(tagParts(tag, "json"), k)))
		})
	})
	gs.Invariant("the options so far are trimmed", func(i int, parts []string) bool {
		return len(parts) == gs.SeqLen(tagParts(tag, "gotsrpc")) && gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(parts), parts[k] == gs.Ite(k < i, tagPart(tag, "gotsrpc", k), gs.Nth(tagParts(tag, "gotsrpc"), k)))
		})
	})
	gs.Invariant("omitempty so far", func(i int, b bool) bool {
		return b == gs.Exists(func(k int) bool {
			return 1 <= k && k <= i && k < gs.SeqLen(tagParts(tag, "json")) && tagPart(tag, "json", k) == "omitempty"
		})
	})
	gs.Invariant("inline so far", func(i int, b bool) bool {
		return b == gs.Exists(func(k int) bool {
			return 1 <= k && k <= i && k < gs.SeqLen(tagParts(tag, "json")) && tagPart(tag, "json", k) == "inline"
		})
	})
	gs.Invariant("union so far", func(i int, b bool) bool {
		return b == gs.Exists(func(k int) bool {
			return 0 <= k && k < i && k < gs.SeqLen(tagParts(tag, "gotsrpc")) && tagPart(tag, "gotsrpc", k) == "union"
		})
	})
	gs.Invariant("type so far", func(i int, s string) bool {
		return gs.Implies(s != "", gs.Exists(func(k int) bool {
			return 0 <= k && k < i && k < gs.SeqLen(tagParts(tag, "gotsrpc")) && strings.HasPrefix(tagPart(tag, "gotsrpc", k), "type:") && s == strings.TrimPrefix(tagPart(tag, "gotsrpc", k), "type:")
		}))
	})
}
