package xmltree

import (
	"encoding/xml"
	"io"
	"text/template"
)

// writeFailed says that some write to the output has failed.
var writeFailed bool

//govc:extern io.Writer.Write
func externWrite(w io.Writer, p []byte) (n int, err error) {
	modifies(writeFailed)
	ensures(writeFailed == (old(writeFailed) || err != nil))
	return
}

//govc:extern io.WriteString
func externWriteString(w io.Writer, s string) (n int, err error) {
	modifies(writeFailed)
	ensures(writeFailed == (old(writeFailed) || err != nil))
	return
}

// openTags counts the start tags written that want an end tag.
var openTags int

type tagData = struct {
	*Element
	NS []xml.Name
}

// tagContents: the start template leaves the tag open for these elements, and
// closes it itself for the others.
func tagContents(el *Element) bool { return len(el.Children) > 0 || len(el.Content) > 0 }

// Template execution stops at, and returns, the first error of the writer.
//
//govc:extern text/template.Template.ExecuteTemplate
func externExecuteTemplate(t *template.Template, w io.Writer, name string, data interface{}) (err error) {
	modifies(writeFailed, openTags)
	ensures(implies(err == nil, writeFailed == old(writeFailed)))
	ensures(implies(old(writeFailed), writeFailed))
	ensures(implies(name == "start", openTags == old(openTags)+ite(tagContents(data.(tagData).Element), 1, 0)))
	ensures(implies(name == "end", openTags == old(openTags)-1))
	return
}

//govc:contract encoder.encodeOpenTag props=C06,C07
func con_encodeOpenTag(e *encoder, el *Element, scope Scope, depth int) (err error) {
	requires(e.w != nil && el != nil)
	modifies(writeFailed, openTags)
	ensures("reported", implies(err == nil, writeFailed == old(writeFailed)))
	ensures("balance", implies(err == nil, openTags == old(openTags)+ite(tagContents(el), 1, 0)))
	candidate(func() bool { return writeFailed == old(writeFailed) })
	return
}

//govc:contract encoder.encodeCloseTag props=C06,C07
func con_encodeCloseTag(e *encoder, el *Element, depth int) (err error) {
	requires(e.w != nil && el != nil)
	modifies(writeFailed, openTags)
	ensures("reported", implies(err == nil, writeFailed == old(writeFailed)))
	ensures("balance", implies(err == nil, openTags == old(openTags)-1))
	candidate(func() bool { return writeFailed == old(writeFailed) })
	return
}

//govc:contract encoder.encode props=C06,C07
func con_encode(e *encoder, el, parent *Element, visited map[*Element]struct{}) (err error) {
	requires(e.w != nil && el != nil && visited != nil)
	modifies(writeFailed, openTags, mapelems(visited))
	ensures("reported", implies(err == nil, writeFailed == old(writeFailed)))
	ensures("balance", implies(err == nil, openTags == old(openTags)))
	candidate(func() bool { return writeFailed == old(writeFailed) })
	candidate(func() bool { return openTags == old(openTags)+1 })
	candidate(func() bool { return openTags == old(openTags)+ite(tagContents(el), 1, 0) })
	return
}

//govc:contract Encode props=C06,C07
func con_Encode(w io.Writer, el *Element) (err error) {
	requires(w != nil && el != nil)
	modifies(writeFailed, openTags)
	ensures("reported", implies(err == nil, writeFailed == old(writeFailed)))
	ensures("balance", implies(err == nil, openTags == old(openTags)))
	candidate(func() bool { return writeFailed == old(writeFailed) })
	return
}
