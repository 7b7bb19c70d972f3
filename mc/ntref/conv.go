package ntref

import "github.com/google/xtoproto/rdf/ntriples"

// Of describes a triple of the code under test by its accessors.
func Of(t *ntriples.Triple) Triple {
	return Triple{S: OfSubject(t.Subject()), P: Term{Kind: "iri", Value: string(t.Predicate())}, O: OfObject(t.Object())}
}

// OfSubject describes a subject.
func OfSubject(s *ntriples.Subject) Term {
	switch {
	case s.IsIRI() && !s.IsBlankNode():
		return Term{Kind: "iri", Value: string(s.IRI())}
	case s.IsBlankNode() && !s.IsIRI():
		return Term{Kind: "bnode", Value: string(s.BlankNodeID())}
	}
	return Term{Kind: "broken"}
}

// OfObject describes an object.
func OfObject(o *ntriples.Object) Term {
	i, b, l := o.IsIRI(), o.IsBlankNode(), o.IsLiteral()
	switch {
	case i && !b && !l:
		return Term{Kind: "iri", Value: string(o.IRI())}
	case b && !i && !l:
		return Term{Kind: "bnode", Value: string(o.BlankNodeID())}
	case l && !i && !b && o.Literal() != nil:
		return OfLiteral(o.Literal())
	}
	return Term{Kind: "broken"}
}

// OfLiteral describes a literal.
func OfLiteral(l ntriples.Literal) Term {
	return Term{"lit", l.LexicalForm(), string(l.Datatype()), l.LanguageTag()}
}

// Make builds the triple with the constructors of the code under test.
func Make(t Triple) *ntriples.Triple {
	s := ntriples.NewSubjectIRI(ntriples.IRI(t.S.Value))
	if t.S.Kind == "bnode" {
		s = ntriples.NewSubjectBlankNodeID(ntriples.BlankNodeID(t.S.Value))
	}
	return ntriples.NewTriple(s, ntriples.IRI(t.P.Value), MakeObject(t.O))
}

// MakeObject builds an object.
func MakeObject(o Term) *ntriples.Object {
	switch o.Kind {
	case "bnode":
		return ntriples.NewObjectBlankNodeID(ntriples.BlankNodeID(o.Value))
	case "iri":
		return ntriples.NewObjectIRI(ntriples.IRI(o.Value))
	}
	return ntriples.NewObjectLiteral(ntriples.NewLiteral(o.Value, ntriples.IRI(o.Datatype), o.Lang))
}
