package main

// The operators, with the precedences and associativities of the language.

type synOp struct {
	txt   string
	head  string
	prec  int
	assoc byte // l, r, n (operands parenthesised), f (flat), c (comparison)
}

var synBinary = []synOp{
	{";", "CompoundExpression", 1, 'f'},
	{"=", "Set", 3, 'r'},
	{":=", "SetDelayed", 3, 'r'},
	{"//", "", 7, 'l'},
	{"+=", "AddTo", 10, 'r'},
	{"-=", "SubtractFrom", 10, 'r'},
	{"/.", "ReplaceAll", 11, 'l'},
	{"//.", "ReplaceRepeated", 11, 'l'},
	{"->", "Rule", 12, 'n'},
	{":>", "RuleDelayed", 12, 'n'},
	{"/;", "Condition", 13, 'l'},
	{"|", "Alternatives", 16, 'f'},
	{"||", "Or", 23, 'f'},
	{"&&", "And", 25, 'f'},
	{"\\[Element]", "Element", 28, 'l'},
	{"===", "SameQ", 29, 'f'},
	{"=!=", "UnsameQ", 29, 'f'},
	{"==", "Equal", 30, 'c'},
	{"!=", "Unequal", 30, 'c'},
	{"<", "Less", 30, 'c'},
	{">", "Greater", 30, 'c'},
	{"<=", "LessEqual", 30, 'c'},
	{">=", "GreaterEqual", 30, 'c'},
	{";;", "Span", 31, 'f'},
	{"+", "Plus", 34, 'f'},
	{"-", "-", 34, 'f'},
	{"*", "Times", 42, 'f'},
	{"", "Times", 42, 'f'},
	{"/", "/", 49, 'l'},
	{".", "Dot", 51, 'f'},
	{"^", "Power", 59, 'r'},
	{"<>", "StringJoin", 60, 'f'},
	{"/@", "Map", 64, 'r'},
	{"@@", "Apply", 64, 'r'},
	{"@@@", "Apply1", 64, 'r'},
	{"@", "", 66, 'r'},
	{"?", "PatternTest", 71, 'l'},
}
