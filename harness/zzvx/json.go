package zzvx

import (
	"bytes"
	"encoding/json"
	"strings"
)

const (
	JNull = iota
	JBool
	JNum
	JStr
	JList
	JObj
)

// Json is a JSON value.
type Json struct {
	Kind int
	Text string // of a boolean, number or string
	Keys []string
	Vals []*Json
}

// Get is the member of an object, or nil.
func (j *Json) Get(key string) *Json {
	if j == nil || j.Kind != JObj {
		return nil
	}
	for i, k := range j.Keys {
		if k == key {
			return j.Vals[i]
		}
	}
	return nil
}

func (j *Json) List() []*Json {
	if j == nil || j.Kind != JList {
		return nil
	}
	return j.Vals
}

func (j *Json) String() string {
	if j == nil || j.Kind != JStr {
		return ""
	}
	return j.Text
}

func jsonDoc(doc string) *Json { return nil }

// ReadJSON reads a JSON document; nil if it is none.
func ReadJSON(doc string) *Json {
	if Symbolic() {
		return jsonDoc(doc)
	}
	if !json.Valid([]byte(doc)) {
		return nil
	}
	d := json.NewDecoder(bytes.NewReader([]byte(strings.TrimSpace(doc))))
	d.UseNumber()
	return readJSON(d)
}

func readJSON(d *json.Decoder) *Json {
	t, err := d.Token()
	if err != nil {
		return nil
	}
	switch x := t.(type) {
	case json.Delim:
		j := &Json{Kind: JList}
		if x == '{' {
			j.Kind = JObj
		}
		for d.More() {
			if j.Kind == JObj {
				k, err := d.Token()
				if err != nil {
					return nil
				}
				j.Keys = append(j.Keys, k.(string))
			}
			j.Vals = append(j.Vals, readJSON(d))
		}
		d.Token()
		return j
	case bool:
		if x {
			return &Json{Kind: JBool, Text: "true"}
		}
		return &Json{Kind: JBool, Text: "false"}
	case json.Number:
		return &Json{Kind: JNum, Text: x.String()}
	case string:
		return &Json{Kind: JStr, Text: x}
	}
	return &Json{Kind: JNull}
}
