//go:build verif

package gotsrpc

import (
	"strings"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// written is the text a code builder holds: every finished line with its
// newline, and the line that is being written.
//
//@ spec
func written(c *code) string { return gs.Lines(c.lines) + c.line }

// margin is what is put in front of a finished line.
//
//@ spec
func margin(c *code) string { return strings.Repeat(c.tab, c.indent) }

//@ contract newCode
func ctNewCode(tab string, c *code) {
	gs.Property("C23")
	gs.Ensures("an empty builder", gs.Fresh(c) && c != nil && written(c) == "" && c.line == "" && c.indent == 0 && c.tab == tab)
	gs.NoPanic()
}

//@ contract (*code).app
func ctCodeApp(c *code, str string, r *code) {
	gs.Property("C23")
	gs.Requires(c != nil)
	gs.Ensures("the text is continued", written(c) == gs.Old(written(c))+str)
	gs.Ensures("in the same line", gs.Same(c.lines, gs.Old(c.lines)) && c.line == gs.Old(c.line)+str && c.indent == gs.Old(c.indent) && c.tab == gs.Old(c.tab))
	gs.Ensures("calls can be chained", r == c)
	gs.Assigns(c)
	gs.NoPanic()
}

//@ contract (*code).nl
func ctCodeNl(c *code, r *code) {
	gs.Property("C23")
	gs.Requires(c != nil, c.indent >= 0)
	gs.Ensures("the line is finished, behind its indentation", written(c) == gs.Old(gs.Lines(c.lines))+gs.Old(margin(c))+gs.Old(c.line)+"\n")
	gs.Ensures("a new line is begun", c.line == "" && c.indent == gs.Old(c.indent) && c.tab == gs.Old(c.tab))
	gs.Ensures("calls can be chained", r == c)
	gs.Ensures("the lines are the builder's own", gs.Fresh(c.lines) || gs.SameArray(c.lines, gs.Old(c.lines)))
	gs.Assigns(c, c.lines)
	gs.NoPanic()
}

//@ contract (*code).l
func ctCodeL(c *code, line string, r *code) {
	gs.Property("C23")
	gs.Requires(c != nil, c.indent >= 0)
	gs.Ensures("the line is continued and finished", written(c) == gs.Old(gs.Lines(c.lines))+gs.Old(margin(c))+gs.Old(c.line)+line+"\n")
	gs.Ensures("a new line is begun", c.line == "" && c.indent == gs.Old(c.indent) && c.tab == gs.Old(c.tab))
	gs.Ensures("calls can be chained", r == c)
	gs.Ensures("the lines are the builder's own", gs.Fresh(c.lines) || gs.SameArray(c.lines, gs.Old(c.lines)))
	gs.Assigns(c, c.lines)
	gs.NoPanic()
}

//@ contract (*code).ind
func ctCodeInd(c *code, inc int, r *code) {
	gs.Property("C23")
	gs.Requires(c != nil)
	gs.Ensures("the text stays", written(c) == gs.Old(written(c)) && c.line == gs.Old(c.line) && c.tab == gs.Old(c.tab))
	gs.Ensures("the indentation changes, never below none", c.indent >= 0 && gs.Implies(gs.Old(c.indent)+inc >= 0, c.indent == gs.Old(c.indent)+inc))
	gs.Ensures("in the same line", gs.Same(c.lines, gs.Old(c.lines)))
	gs.Ensures("calls can be chained", r == c)
	gs.Assigns(c)
	gs.NoPanic()
}

//@ contract (*code).string
func ctCodeString(c *code, s string) {
	gs.Property("C23")
	gs.Requires(c != nil)
	gs.Ensures("exactly the text, without its last newline", s == gs.Ite(gs.Old(c.line) != "", gs.Old(written(c)), strings.TrimSuffix(gs.Old(written(c)), "\n")))
	gs.Ensures("the lines are the builder's own", gs.Fresh(c.lines) || gs.SameArray(c.lines, gs.Old(c.lines)))
	gs.Assigns(c, c.lines)
	gs.NoPanic()
}
