package main

import (
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Functions of the codec that only compute a value from their arguments.
var xmlPure = map[string]bool{
	"isName": true, "isNameByte": true, "isInCharacterRange": true, "isNameString": true, "procInst": true,
	"splitPrefixed": true, "joinPrefixed": true, "isValidDirective": true,
}

// xmlMode: functions of the codec that have a reference of their own are not
// looked into when their callers are compared.
func (p *Program) xmlMode(fn *ssa.Function) callMode {
	if fn.Pkg != p.XML || isSpecFunc(fn) || fn.Parent() != nil {
		return modeDefault
	}
	name := fn.Name()
	if rv := fn.Signature.Recv(); rv != nil {
		n := namedOf(rv.Type())
		if n == nil {
			return modeDefault
		}
		name = n.Obj().Name() + "_" + name
	}
	if p.specOf(p.XML, name) == nil {
		return modeDefault
	}
	if xmlPure[name] {
		return modePure
	}
	return modeEvent
}

// xmlRefs checks the named functions against their references.
func (r *Report) xmlRefs(rule string, names ...string) {
	for _, n := range names {
		if c, ok := r.P.compared[n]; ok { // when all properties are checked in one run
			c.Rule = rule
			r.Obs = append(r.Obs, c)
			continue
		}
		t := time.Now()
		r.equiv(rule, n, eqOpt{pkg: r.P.XML, strict: true, noBounds: true})
		if r.P.compared == nil {
			r.P.compared = map[string]Obligation{}
		}
		r.P.compared[n] = r.Obs[len(r.Obs)-1]
		if d := time.Since(t); d > time.Second && os.Getenv("VERIF_DEBUG") != "" {
			println("SLOW", n, d.String())
		}
	}
}

// xmlParts: the functions of the codec that carry each property.
var xmlParts = map[string]string{
	"C08": `NewEncoder newElement parentStack_push parentStack_trim Encoder_Indent`,
	"C17": `EscapeText escapeText printer_EscapeString Escape emitCDATA isValidDirective Encoder_EncodeToken isInCharacterRange isName isNameByte isNameString
		printer_marshalStruct printer_marshalSimple printer_marshalValue printer_marshalTextInterface printer_writeStart printer_writePrefixAttr printer_marshalAttr`,
	"C18": `printer_writeStart printer_writeEnd printer_marshalValue printer_marshalInterface printer_marshalTextInterface printer_marshalStruct parentStack_trim parentStack_push
		Encoder_Close printer_Close Encoder_EncodeToken Encoder_EncodeElement Encoder_Encode defaultStart newElement splitPrefixed joinPrefixed printer_marshalAttr
		Marshal MarshalIndent printer_writeIndent printer_createPrefix printer_writePrefixAttr printer_getPrefix StartElement_End`,
	"C19": `Unmarshal Decoder_Decode Decoder_DecodeElement Decoder_unmarshal Decoder_unmarshalPath Decoder_unmarshalInterface Decoder_unmarshalTextInterface Decoder_unmarshalAttr
		Decoder_Skip Decoder_Token Decoder_RawToken Decoder_rawToken Decoder_attrval Decoder_text Decoder_nsname Decoder_name Decoder_readName Decoder_space Decoder_mustgetc
		Decoder_getc Decoder_ungetc Decoder_popElement Decoder_pushElement Decoder_push Decoder_pop Decoder_pushEOF Decoder_popEOF Decoder_syntaxError Decoder_autoClose
		Decoder_switchToReader NewDecoder procInst copyValue`,
	"C20": `Decoder_rawToken Decoder_text Decoder_attrval Decoder_nsname Decoder_name Decoder_readName isName isNameByte isNameString isInCharacterRange procInst
		Decoder_switchToReader NewDecoder Decoder_syntaxError`,
	"C21": `Decoder_rawToken Decoder_text Decoder_attrval Decoder_readName Decoder_space Decoder_getc Decoder_mustgetc Decoder_ungetc Decoder_Token Decoder_autoClose
		Decoder_popElement Decoder_popEOF Decoder_pop Decoder_unmarshal Decoder_unmarshalPath Decoder_unmarshalTextInterface Decoder_Skip`,
	"C22": `Decoder_unmarshal Decoder_unmarshalPath Decoder_unmarshalInterface Decoder_unmarshalTextInterface Decoder_Skip Decoder_DecodeElement Decoder_Decode`,
	"C23": `Decoder_internBytes Decoder_name Decoder_nsname Decoder_readName CharData_Copy Comment_Copy ProcInst_Copy Directive_Copy StartElement_Copy CopyToken copyValue Decoder_attrval
		Decoder_unmarshal Decoder_unmarshalAttr Decoder_unmarshalTextInterface Decoder_text NewDecoder`,
	"C24": `getTypeImpl getTypeInfo structFieldInfo addFieldInfo lookupXMLName`,
	"C25": `printer_Write printer_WriteString printer_WriteByte printer_Close printer_cachedWriteError printer_writeIndent Encoder_Flush Encoder_Encode Encoder_EncodeElement
		Encoder_EncodeToken Encoder_Close Marshal MarshalIndent Decoder_getc Decoder_mustgetc Decoder_ungetc Decoder_Token Decoder_RawToken Decoder_rawToken Decoder_text Decoder_attrval
		Decoder_space Decoder_readName Decoder_name printer_writeStart printer_writeEnd printer_marshalValue printer_marshalStruct printer_EscapeString escapeText Escape EscapeText emitCDATA
		printer_marshalTextInterface`,
	"C26": `Decoder_Token Decoder_translate Decoder_pushNs Decoder_popElement Decoder_push Decoder_pop Decoder_pushElement Decoder_pushEOF Decoder_popEOF Decoder_autoClose NewDecoder
		NewTokenDecoder Decoder_nsname`,
	"C27": `Decoder_unmarshal Decoder_unmarshalPath Decoder_Skip Decoder_unmarshalTextInterface Decoder_unmarshalInterface Decoder_unmarshalAttr getTypeInfo structFieldInfo addFieldInfo
		lookupXMLName fieldInfo_value copyValue Decoder_savedOffset Decoder_getc Decoder_ungetc`,
	"C28": `copyValue Decoder_unmarshalAttr Decoder_unmarshal Decoder_unmarshalTextInterface Decoder_unmarshalPath Decoder_unmarshalInterface printer_marshalSimple printer_marshalAttr
		printer_marshalTextInterface printer_marshalStruct printer_marshalValue`,
	"C29": `printer_getPrefix printer_createPrefix printer_writePrefixAttr printer_writeStart printer_writeEnd newElement splitPrefixed joinPrefixed`,
	"C32": `Decoder_getc Decoder_ungetc Decoder_mustgetc Decoder_InputOffset Decoder_InputPos Decoder_syntaxError SyntaxError_Error UnmarshalError_Error TagPathError_Error
		UnsupportedTypeError_Error receiverType Decoder_switchToReader NewDecoder Decoder_popEOF Decoder_popElement Decoder_unmarshalInterface`,
	"C33": `printer_writeIndent Encoder_Indent MarshalIndent Marshal printer_writeStart printer_writeEnd printer_marshalStruct Encoder_EncodeToken Encoder_Encode parentStack_trim parentStack_push`,
	"C35": `printer_marshalValue printer_marshalAttr printer_marshalStruct printer_marshalSimple printer_marshalInterface printer_marshalTextInterface printer_writeStart defaultStart
		Encoder_Encode Encoder_EncodeElement Encoder_EncodeToken Marshal MarshalIndent indirect isEmptyValue fieldInfo_value getTypeInfo structFieldInfo addFieldInfo lookupXMLName
		getTypeImpl StartElement_End StartElement_Copy`,
	"C12": `Decoder_savedOffset Decoder_getc Decoder_ungetc Decoder_unmarshal printer_marshalStruct printer_marshalAttr Decoder_unmarshalAttr`,
	"C11": `isEmptyValue printer_marshalValue printer_marshalStruct printer_marshalAttr indirect fieldInfo_value copyValue Decoder_unmarshalAttr`,
	"C07": `Encoder_Flush Encoder_Encode Encoder_EncodeElement Encoder_Close printer_Close printer_cachedWriteError printer_Write printer_WriteByte printer_WriteString`,
	"C10": `getTypeImpl getTypeInfo structFieldInfo addFieldInfo lookupXMLName copyValue Decoder_unmarshalAttr printer_marshalSimple printer_marshalAttr`,
	"C13": `newElement splitPrefixed joinPrefixed printer_createPrefix printer_getPrefix printer_writePrefixAttr printer_writeStart printer_marshalAttr structFieldInfo
		Decoder_translate Decoder_pushNs`,
}

// mixed: properties of the document model with a share of the codec.
var mixed = map[string]bool{"C07": true, "C10": true, "C11": true, "C12": true, "C13": true}

// codecRules: rules of a property beyond the references.
var codecRules = map[string]checkFn{}

// xmlPart adds the codec's share of the property to the report.
func (r *Report) xmlPart(id string) {
	r.Rule("codec", "every path of the functions of the xml codec that carry the property - results, errors, panics, the state left behind, the calls made and in which state, and what each round of each loop changes - is the one the reviewed reference prescribes (guarded value summaries over SSA compared symbol by symbol); functions with a reference of their own are compared separately")
	r.xmlRefs("codec", strings.Fields(xmlParts[id])...)
}

func init() {
	for id := range xmlParts {
		id := id
		if !mixed[id] {
			register(id, func(r *Report) {
				r.xmlPart(id)
				if f := codecRules[id]; f != nil {
					f(r)
				}
			})
		}
	}
	register("XALL", func(r *Report) {
		r.Rule("reference", "behaves as the reference")
		var names []string
		for n, m := range r.P.XML.Members {
			if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, specPrefix) {
				names = append(names, strings.TrimPrefix(n, specPrefix))
			}
		}
		sort.Strings(names)
		for _, n := range names {
			if f := os.Getenv("XONLY"); f == "" || f == n {
				r.xmlRefs("reference", n)
			}
		}
	})
}
