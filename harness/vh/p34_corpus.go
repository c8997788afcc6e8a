package main

// The examples in the documentation of the builtins (expreduce/resources/*.m and the
// SimpleExamples, FurtherExamples and Tests in the Go code), extracted once.
// kind: src and str hold source text, ex holds full forms.

type docEx struct{ kind, in, out string }

type docGroup struct {
	module, name string
	exs          []docEx
}

var docGroups = []docGroup{
	{"combinatorics", "IntegerPartitions", []docEx{
		{"ex", "IntegerPartitions[4]", "{{4}, {3, 1}, {2, 2}, {2, 1, 1}, {1, 1, 1, 1}}"},
		{"ex", "IntegerPartitions[10, 2]", "{{10}, {9, 1}, {8, 2}, {7, 3}, {6, 4}, {5, 5}}"},
		{"ex", "IntegerPartitions[0]", "{{}}"},
		{"ex", "IntegerPartitions[1]", "{{1}}"},
		{"ex", "IntegerPartitions[(-1)]", "{}"},
		{"ex", "IntegerPartitions[(-5)]", "{}"},
		{"ex", "IntegerPartitions[0.5]", "IntegerPartitions[0.5]"},
		{"ex", "IntegerPartitions[10, 1]", "{{10}}"},
		{"ex", "IntegerPartitions[10, 0]", "{}"},
	}},
	{"combinatorics", "Permutations", []docEx{
		{"ex", "Permutations[Range[3]]", "{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}"},
		{"ex", "Permutations[{1, 2, 2}]", "{{1, 2, 2}, {2, 1, 2}, {2, 2, 1}}"},
	}},
	{"combinatorics", "Multinomial", []docEx{
		{"ex", "Multinomial[1, 3, 1]", "20"},
		{"ex", "Multinomial[1, Private`k, 1]", "Times[Factorial[Plus[Private`k, 2]], Power[Factorial[Private`k], (-1)]]"},
	}},
	{"combinatorics", "Factorial", []docEx{
		{"ex", "Factorial[20]", "2432902008176640000"},
		{"ex", "Factorial[5]", "120"},
		{"ex", "Factorial[0]", "1"},
		{"ex", "Factorial[(-1)]", "ComplexInfinity"},
		{"ex", "Factorial[1]", "1"},
		{"ex", "Factorial[0]", "1"},
		{"ex", "Factorial[0]", "1"},
		{"ex", "Factorial[(-10)]", "ComplexInfinity"},
		{"ex", "Factorial[5]", "120"},
		{"ex", "Times[0, Infinity]", "Indeterminate"},
		{"ex", "Times[0, ComplexInfinity]", "Indeterminate"},
	}},
	{"combinatorics", "Tuples", []docEx{
		{"ex", "Tuples[Range[1, 3], 2]", "{{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {3, 3}}"},
	}},
	{"calculus", "D", []docEx{
		{"ex", "D[Plus[Times[2, Power[3, (-1)], Power[Private`x, Times[3, Power[2, (-1)]]]], Times[2, Power[5, (-1)], Power[Private`x, Times[5, Power[2, (-1)]]]]], Private`x]", "Plus[Sqrt[Private`x], Power[Private`x, Times[3, Power[2, (-1)]]]]"},
		{"ex", "D[Log[Times[5, Power[Private`x, 2]]], Private`x]", "Times[2, Power[Private`x, (-1)]]"},
		{"ex", "D[Cos[Log[Private`x]], Private`x]", "Times[Times[Sin[Log[Private`x]], Power[Private`x, (-1)]], (-1)]"},
		{"ex", "D[Private`x, Private`x]", "1"},
		{"ex", "D[Private`foo, Private`foo]", "1"},
		{"ex", "D[Private`foo, Private`bar]", "0"},
		{"ex", "D[Plus[Private`bar, Private`foo, Private`bar], Private`bar]", "2"},
		{"ex", "D[Power[Private`x, 2], Private`x]", "Times[2, Private`x]"},
		{"ex", "D[Plus[Power[Private`x, 2], Power[Private`x, 3]], Private`x]", "Plus[Times[2, Private`x], Times[3, Power[Private`x, 2]]]"},
		{"ex", "D[Times[Power[Private`x, 4], (-1)], Private`x]", "Times[(-4), Power[Private`x, 3]]"},
		{"ex", "D[Plus[Power[Private`x, Private`n], Power[Private`x, Times[Private`n, (-1)]]], Private`x]", "Plus[Times[Private`n, (-1), Power[Private`x, Plus[(-1), Times[Private`n, (-1)]]]], Times[Private`n, Power[Private`x, Plus[(-1), Private`n]]]]"},
		{"ex", "D[Power[Plus[Power[Private`x, 2], 1], 2], Private`x]", "Times[4, Private`x, Plus[1, Power[Private`x, 2]]]"},
		{"ex", "D[Plus[1, Private`x, Times[1, Power[2, (-1)], Power[Private`x, 2]], Times[1, Power[6, (-1)], Power[Private`x, 3]], Times[1, Power[24, (-1)], Power[Private`x, 4]]], Private`x]", "Plus[1, Private`x, Times[1, Power[6, (-1)], Power[Private`x, 3]], Times[1, Power[2, (-1)], Power[Private`x, 2]]]"},
		{"ex", "D[Plus[1, Times[7, Power[Private`x, (-1)]], Times[5, Power[Power[Private`x, 2], (-1)]]], Private`x]", "Plus[Times[(-10), Power[Private`x, (-3)]], Times[Times[7, Power[Private`x, (-2)]], (-1)]]"},
		{"ex", "D[Cos[Times[2, Private`x]], Private`x]", "Times[(-2), Sin[Times[2, Private`x]]]"},
		{"ex", "D[Times[Sin[Private`x], Power[Private`x, (-1)]], Private`x]", "Plus[Times[Cos[Private`x], Power[Private`x, (-1)]], Times[Times[Sin[Private`x], Power[Private`x, (-2)]], (-1)]]"},
		{"ex", "D[D[Times[Sin[Private`x], Power[Private`x, (-1)]], Private`x], Private`x]", "Plus[Times[Times[Times[2, Cos[Private`x]], Power[Private`x, (-2)]], (-1)], Times[Times[2, Sin[Private`x]], Power[Private`x, (-3)]], Times[Times[Sin[Private`x], Power[Private`x, (-1)]], (-1)]]"},
		{"ex", "D[D[Plus[Times[Sin[Private`x], Power[Private`x, (-1)]], Sin[Private`y]], Private`x], Private`x]", "Plus[Times[Times[Times[2, Cos[Private`x]], Power[Private`x, (-2)]], (-1)], Times[Times[2, Sin[Private`x]], Power[Private`x, (-3)]], Times[Times[Sin[Private`x], Power[Private`x, (-1)]], (-1)]]"},
		{"ex", "D[Sin[Cos[Private`x]], Private`x]", "Times[Cos[Cos[Private`x]], (-1), Sin[Private`x]]"},
		{"ex", "D[Sin[Log[Private`x]], Private`x]", "Times[Cos[Log[Private`x]], Power[Private`x, (-1)]]"},
		{"ex", "D[Cos[Log[Private`x]], Private`x]", "Times[Times[Sin[Log[Private`x]], Power[Private`x, (-1)]], (-1)]"},
		{"ex", "D[Plus[Cos[Plus[Log[Sin[Private`x]], Private`x]], Private`x], Private`x]", "Plus[1, Times[Times[Plus[1, Cot[Private`x]], Sin[Plus[Private`x, Log[Sin[Private`x]]]]], (-1)]]"},
		{"ex", "D[{Times[Private`a, Private`x], Times[Private`b, Private`x]}, Private`x]", "{Private`a, Private`b}"},
	}},
	{"calculus", "Grad", []docEx{
		{"ex", "Grad[Cos[Plus[Private`x, Times[2, Private`y]]], {Private`x, Private`y}]", "{Times[Sin[Plus[Private`x, Times[2, Private`y]]], (-1)], Times[(-2), Sin[Plus[Private`x, Times[2, Private`y]]]]}"},
	}},
	{"calculus", "Integrate", []docEx{}},
	{"comparison", "Equal", []docEx{
		{"str", "9*x==x*9", "True"},
		{"str", "9*x==x*10", "(9*x == 10*x)"},
		{"str", "tmp=5", "5"},
		{"str", "tmp==5", "True"},
		{"str", "tmp==5.", "True"},
		{"str", "tmp==5.00000", "True"},
		{"str", "4/3==3/2", "False"},
		{"str", "4/3==8/6", "True"},
		{"str", "If[xx == 2, yy, zz] == If[xx == 2, yy, zz]", "True"},
		{"ex", "Equal[{1, 2, 3}, Blank[List]]", "Equal[{1, 2, 3}, Blank[List]]"},
		{"ex", "MatchQ[{1, 2, 3}, Blank[List]]", "True"},
		{"str", "tmp=5", "5"},
		{"str", "tmp==5", "True"},
		{"str", "5==tmp", "True"},
		{"str", "tmp==6", "False"},
		{"str", "6==tmp", "False"},
		{"str", "a==b", "(a == b)"},
		{"str", "a==a", "True"},
		{"str", "a==2", "(a == 2)"},
		{"str", "2==a", "(2 == a)"},
		{"str", "2==a+b", "(2 == a + b)"},
		{"str", "2.==a", "(2. == a)"},
		{"str", "2^k==a", "(2^k == a)"},
		{"str", "2^k==2^a", "(2^k == 2^a)"},
		{"str", "2^k==k+2", "(2^k == 2 + k)"},
		{"str", "k==2*k", "(k == 2*k)"},
		{"str", "2*k==k", "(2*k == k)"},
		{"str", "1+1==2", "True"},
		{"str", "y==m*x+b", "(y == b + m*x)"},
		{"str", "1==1.", "True"},
		{"str", "1.==1", "True"},
		{"str", "(x==2)==(x==2)", "True"},
		{"str", "(x==2.)==(x==2)", "True"},
		{"str", "(x===2.)==(x===2)", "True"},
		{"str", "If[xx == 3, yy, zz] == If[xx == 2, yy, zz]", "(If[xx == 3, yy, zz] == If[xx == 2, yy, zz])"},
		{"str", "(1 == 2) == (2 == 3)", "True"},
		{"str", "(1 == 2) == (2 == 2)", "False"},
		{"ex", "Equal[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`foo[Equal[Private`x, 2], Private`y, Private`x]]", "True"},
		{"ex", "Equal[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`foo[Equal[Private`x, 2.], Private`y, Private`x]]", "True"},
		{"ex", "Equal[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`foo[Equal[Private`x, 2.], Private`y, Private`y]]", "Equal[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`foo[Equal[Private`x, 2.], Private`y, Private`y]]"},
		{"ex", "Equal[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`bar[Equal[Private`x, 2], Private`y, Private`x]]", "Equal[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`bar[Equal[Private`x, 2], Private`y, Private`x]]"},
		{"str", "foo[x, y, z] == foo[x, y]", "(foo[x, y, z] == foo[x, y])"},
		{"str", "foo[x, y, z] == foo[x, y, 1]", "(foo[x, y, z] == foo[x, y, 1])"},
		{"ex", "Equal[Private`foo[Private`x, Private`y, 1], Private`foo[Private`x, Private`y, 1]]", "True"},
		{"ex", "Equal[Private`foo[Private`x, Private`y, 1.], Private`foo[Private`x, Private`y, 1]]", "True"},
		{"ex", "Equal[Private`test]", "True"},
		{"ex", "Equal[]", "True"},
		{"ex", "Equal[Power[(-1), Times[1, Power[6, (-1)]]], Times[I, (-1)]]", "False"},
		{"ex", "N[Equal[Power[(-1), Times[1, Power[6, (-1)]]], Power[(-1), Times[1, Power[6, (-1)]]]]]", "True"},
		{"ex", "Equal[ReplaceAll[Times[Power[2, Times[(-1), Power[2, (-1)]]], Power[E, Times[Times[(-1), Power[2, (-1)]], Power[Private`x, 2]]], Power[Pi, Times[(-1), Power[2, (-1)]]]], Rule[Private`x, N[Times[Sqrt[2], (-1), Sqrt[Log[Times[5, Sqrt[Times[2, Power[Pi, (-1)]]]]]]]]]], 0.1]", "True"},
		{"ex", "Equal[1.0000000000005, 1.00000000000051]", "True"},
		{"ex", "Equal[1.000000000005, 1.0000000000051]", "False"},
		{"ex", "Equal[100.00000000005, 100.000000000051]", "True"},
		{"ex", "Equal[1000000000000.5, 1000000000000.51]", "True"},
	}},
	{"comparison", "Unequal", []docEx{
		{"str", "9 != 8", "True"},
		{"str", "9*x != x*10", "((9*x) != (10*x))"},
		{"str", "tmp=5", "5"},
		{"str", "tmp != 5", "False"},
		{"str", "tmp != 5.", "False"},
		{"str", "tmp != 5.00000", "False"},
		{"str", "4/3 != 3/2", "True"},
		{"str", "4/3 != 8/6", "False"},
	}},
	{"comparison", "SameQ", []docEx{
		{"str", "a===a", "True"},
		{"str", "5 === 5", "True"},
		{"str", "5 === 5.", "False"},
		{"ex", "SameQ[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`foo[Equal[Private`x, 2], Private`y, Private`x]]", "True"},
		{"ex", "SameQ[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`foo[Equal[Private`x, 2.], Private`y, Private`x]]", "False"},
		{"ex", "SameQ[{1, 2, 3}, Blank[List]]", "False"},
		{"ex", "MatchQ[{1, 2, 3}, Blank[List]]", "True"},
		{"str", "tmp=5", "5"},
		{"str", "a===b", "False"},
		{"str", "tmp===5", "True"},
		{"str", "tmp===5.", "False"},
		{"str", "1+1===2", "True"},
		{"str", "y===m*x+b", "False"},
		{"str", "1===1.", "False"},
		{"str", "1.===1", "False"},
		{"str", "(x===2.)===(x===2)", "True"},
		{"str", "(x==2.)===(x==2)", "False"},
		{"str", "If[xx == 2, yy, zz] === If[xx == 2, yy, zz]", "True"},
		{"str", "If[xx == 2, yy, zz] === If[xx == 2., yy, zz]", "False"},
		{"str", "If[xx == 3, yy, zz] === If[xx == 2, yy, zz]", "False"},
		{"str", "(x == y) === (y == x)", "False"},
		{"str", "(x == y) === (x == y)", "True"},
		{"ex", "SameQ[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`foo[Equal[Private`x, 2.], Private`y, Private`y]]", "False"},
		{"ex", "SameQ[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Private`bar[Equal[Private`x, 2], Private`y, Private`x]]", "False"},
		{"ex", "SameQ[Private`foo[Private`x, Private`y, Private`z], Private`foo[Private`x, Private`y]]", "False"},
		{"ex", "SameQ[Private`foo[Private`x, Private`y, Private`z], Private`foo[Private`x, Private`y, 1]]", "False"},
		{"ex", "SameQ[Private`foo[Private`x, Private`y, 1], Private`foo[Private`x, Private`y, 1]]", "True"},
		{"ex", "SameQ[Private`foo[Private`x, Private`y, 1.], Private`foo[Private`x, Private`y, 1]]", "False"},
		{"ex", "SameQ[Private`test]", "True"},
		{"ex", "SameQ[]", "True"},
	}},
	{"comparison", "UnsameQ", []docEx{
		{"str", "a=!=a", "False"},
		{"str", "5 =!= 5", "False"},
		{"str", "a=!=b", "True"},
		{"str", "a=!=b=!=a", "False"},
		{"str", "UnsameQ[]", "True"},
	}},
	{"comparison", "AtomQ", []docEx{
		{"ex", "AtomQ[\"hello\"]", "True"},
		{"ex", "AtomQ[Times[5, Power[3, (-1)]]]", "True"},
		{"ex", "AtomQ[Private`hello]", "True"},
		{"ex", "AtomQ[Times[Private`a, Power[Private`b, (-1)]]]", "False"},
		{"ex", "AtomQ[Private`bar[Private`x]]", "False"},
	}},
	{"comparison", "NumberQ", []docEx{
		{"ex", "NumberQ[2]", "True"},
		{"ex", "NumberQ[2.2]", "True"},
		{"ex", "NumberQ[Rational[5, 2]]", "True"},
		{"ex", "NumberQ[Infinity]", "False"},
		{"ex", "NumberQ[Sqrt[2]]", "False"},
		{"ex", "NumberQ[Private`randomvar]", "False"},
		{"ex", "NumberQ[\"hello\"]", "False"},
	}},
	{"comparison", "NumericQ", []docEx{
		{"ex", "NumericQ[5]", "True"},
		{"ex", "NumericQ[Private`a]", "False"},
		{"ex", "NumericQ[Sin[Private`a]]", "False"},
		{"ex", "NumericQ[Sin[2]]", "True"},
		{"ex", "NumericQ[Cos[2]]", "True"},
		{"ex", "NumericQ[Sqrt[Private`a]]", "False"},
		{"ex", "NumericQ[Times[Sqrt[Sin[2]], Sqrt[Sin[Private`x]]]]", "False"},
		{"ex", "NumericQ[Sqrt[2]]", "True"},
	}},
	{"comparison", "Less", []docEx{
		{"ex", "Less[Private`a, Private`b]", "Less[Private`a, Private`b]"},
		{"ex", "Less[1, 2]", "True"},
		{"ex", "Less[3, 5.5]", "True"},
		{"ex", "Less[5.5, 3]", "False"},
		{"ex", "Less[3, 3]", "False"},
		{"ex", "Less[1, 2, 3]", "True"},
		{"ex", "Less[2]", "True"},
		{"ex", "Less[1, (-1), Private`a]", "False"},
	}},
	{"comparison", "Greater", []docEx{
		{"ex", "Greater[Private`a, Private`b]", "Greater[Private`a, Private`b]"},
		{"ex", "Greater[1, 2]", "False"},
		{"ex", "Greater[3, 5.5]", "False"},
		{"ex", "Greater[5.5, 3]", "True"},
		{"ex", "Greater[3, 3]", "False"},
		{"ex", "Greater[3, 2, 1]", "True"},
		{"ex", "Greater[2]", "True"},
	}},
	{"comparison", "LessEqual", []docEx{
		{"ex", "LessEqual[Private`a, Private`b]", "LessEqual[Private`a, Private`b]"},
		{"ex", "LessEqual[1, 2]", "True"},
		{"ex", "LessEqual[3, 5.5]", "True"},
		{"ex", "LessEqual[5.5, 3]", "False"},
		{"ex", "LessEqual[3, 3]", "True"},
		{"ex", "LessEqual[1, 2, 3]", "True"},
		{"ex", "LessEqual[2]", "True"},
	}},
	{"comparison", "GreaterEqual", []docEx{
		{"ex", "GreaterEqual[Private`a, Private`b]", "GreaterEqual[Private`a, Private`b]"},
		{"ex", "GreaterEqual[1, 2]", "False"},
		{"ex", "GreaterEqual[3, 5.5]", "False"},
		{"ex", "GreaterEqual[5.5, 3]", "True"},
		{"ex", "GreaterEqual[3, 3]", "True"},
		{"ex", "GreaterEqual[3, 2, 2, 1]", "True"},
		{"ex", "GreaterEqual[2]", "True"},
	}},
	{"comparison", "Positive", []docEx{
		{"ex", "Map[Positive, {1, 0, (-1), Private`a}]", "{True, False, False, Positive[Private`a]}"},
	}},
	{"comparison", "Negative", []docEx{
		{"ex", "Map[Negative, {1, 0, (-1), Private`a}]", "{False, False, True, Negative[Private`a]}"},
	}},
	{"comparison", "Max", []docEx{
		{"ex", "Max[1, 2, 3]", "3"},
		{"ex", "Max[1, Private`a, 3]", "Max[3, Private`a]"},
		{"ex", "Max[Private`b, 1, Private`a, 3]", "Max[3, Private`a, Private`b]"},
		{"ex", "Max[Private`b, 1, Private`a, 3, 3.]", "Max[3., Private`a, Private`b]"},
		{"ex", "Max[Private`b, 1, Private`a, 3, 3., 3.1]", "Max[3.1, Private`a, Private`b]"},
		{"ex", "Max[Private`b, 1, Private`a, 3, 3., 3.1, Rational[99, 2]]", "Max[Times[99, Power[2, (-1)]], Private`a, Private`b]"},
		{"ex", "Max[]", "Times[Infinity, (-1)]"},
		{"ex", "Max[{Private`b, 1, Private`a}, 3, 3., 3.1, Rational[99, 2]]", "Max[Times[99, Power[2, (-1)]], Private`a, Private`b]"},
		{"ex", "Max[Private`foo[Private`b, 1, Private`a], 3, 3., 3.1, Rational[99, 2]]", "Max[Times[99, Power[2, (-1)]], Private`foo[Private`b, 1, Private`a]]"},
	}},
	{"comparison", "Min", []docEx{
		{"ex", "Min[1, 2, 3]", "1"},
		{"ex", "Min[1, Private`a, 3]", "Min[1, Private`a]"},
		{"ex", "Min[Private`b, 1, Private`a, 3]", "Min[1, Private`a, Private`b]"},
		{"ex", "Min[Private`b, 1, Private`a, 3, 3.]", "Min[1, Private`a, Private`b]"},
		{"ex", "Min[Private`b, 1, Private`a, 3, 3., 3.1]", "Min[1, Private`a, Private`b]"},
		{"ex", "Min[Private`b, 1, Private`a, 3, 3., 3.1, Rational[99, 2]]", "Min[1, Private`a, Private`b]"},
		{"ex", "Min[]", "Infinity"},
	}},
	{"comparison", "PossibleZeroQ", []docEx{
		{"ex", "PossibleZeroQ[Plus[Private`a, Times[Private`a, (-1)]]]", "True"},
		{"ex", "PossibleZeroQ[Plus[Private`a, Times[Private`b, (-1)]]]", "False"},
	}},
	{"comparison", "MinMax", []docEx{
		{"ex", "MinMax[Range[5]]", "{1, 5}"},
	}},
	{"comparison", "Element", []docEx{
		{"ex", "Element[(-1), Integers]", "True"},
	}},
	{"comparison", "Inequality", []docEx{
		{"ex", "Inequality[Times[Pi, (-1)], Less, 0, LessEqual, Pi]", "True"},
		{"ex", "Inequality[Times[Pi, (-1)], Less, 0, LessEqual, Private`a]", "LessEqual[0, Private`a]"},
		{"ex", "Inequality[Private`c, Less, 0, Less, Private`a]", "Inequality[Private`c, Less, 0, Less, Private`a]"},
		{"ex", "Inequality[Private`c, Less, 0]", "Less[Private`c, 0]"},
		{"ex", "Inequality[Private`c, Less]", "Inequality[Private`c, Less]"},
		{"ex", "Inequality[Private`c]", "True"},
		{"ex", "Inequality[]", "Inequality[]"},
		{"ex", "Inequality[False]", "True"},
		{"ex", "Inequality[(-1), Less]", "Inequality[(-1), Less]"},
		{"ex", "Inequality[(-1), Less, Private`a, Less, 0, Less, 1]", "Inequality[(-1), Less, Private`a, Less, 0]"},
		{"ex", "Inequality[(-1), Less, 0, Less, Private`a, Less, 1]", "Inequality[0, Less, Private`a, Less, 1]"},
		{"ex", "Inequality[(-1), Less, Private`a, Less, (-2)]", "False"},
		{"ex", "Inequality[Times[Pi, (-1)], Less, 0, GreaterEqual, Private`a]", "GreaterEqual[0, Private`a]"},
		{"ex", "Inequality[0, Less, Private`a, Greater, 0, Greater, Private`k]", "And[Less[0, Private`a], Inequality[Private`a, Greater, 0, Greater, Private`k]]"},
		{"ex", "Inequality[0, Greater, Private`a, Less, 0]", "And[Greater[0, Private`a], Less[Private`a, 0]]"},
		{"ex", "Inequality[0, Less, Private`a, Less, 1]", "Inequality[0, Less, Private`a, Less, 1]"},
		{"ex", "And[Less[0, Private`a], Less[Private`a, 1]]", "And[Less[0, Private`a], Less[Private`a, 1]]"},
		{"ex", "Inequality[Private`a, Less, Private`b, LessEqual, Private`c]", "Inequality[Private`a, Less, Private`b, LessEqual, Private`c]"},
		{"ex", "Inequality[Private`a, Less, Private`b, LessEqual, Private`c, Equal, Private`d, GreaterEqual, Private`e, Greater, Private`f]", "And[Inequality[Private`a, Less, Private`b, LessEqual, Private`c, Equal, Private`d], Inequality[Private`d, GreaterEqual, Private`e, Greater, Private`f]]"},
		{"ex", "Inequality[Private`a, Greater, Private`b, GreaterEqual, Private`c, Equal, Private`d, LessEqual, Private`e, Less, Private`f]", "And[Inequality[Private`a, Greater, Private`b, GreaterEqual, Private`c, Equal, Private`d], Inequality[Private`d, LessEqual, Private`e, Less, Private`f]]"},
		{"ex", "Inequality[Private`a, Greater, Private`b, GreaterEqual, Private`c, Equal, Private`d, GreaterEqual, Private`e, Less, Private`f]", "And[Inequality[Private`a, Greater, Private`b, GreaterEqual, Private`c, Equal, Private`d, GreaterEqual, Private`e], Less[Private`e, Private`f]]"},
		{"ex", "Inequality[Private`a, Greater, 1, GreaterEqual, Private`c, Equal, Private`d, GreaterEqual, 5, Less, Private`f]", "False"},
		{"ex", "Inequality[Private`a, Less, 1, Less, 2, Less, 3, Less, 4, LessEqual, Private`b]", "Inequality[Private`a, Less, 1, Less, 4, LessEqual, Private`b]"},
		{"ex", "Inequality[Private`a, Less, 1, Less, 2, Less, 3, Less, 4, LessEqual, Private`b, Less, 5]", "Inequality[Private`a, Less, 1, Less, 4, LessEqual, Private`b, Less, 5]"},
	}},
	{"atoms", "Rational", []docEx{
		{"ex", "Head[Times[5, Power[6, (-1)]]]", "Rational"},
		{"ex", "Head[Times[5, Power[6, (-1)]]]", "Rational"},
		{"ex", "Head[Rational[5, 6]]", "Rational"},
		{"ex", "Rational[10, 6]", "Times[5, Power[3, (-1)]]"},
		{"ex", "Head[Rational[(-100), 10]]", "Integer"},
		{"str", "Rational[0, n]", "Rational[0, n]"},
		{"str", "Rational[0, 0]", "Indeterminate"},
		{"str", "Rational[1, 0]", "ComplexInfinity"},
		{"ex", "Set[Private`test, Rational[2, 3]]", "Times[2, Power[3, (-1)]]"},
		{"ex", "MatchQ[Private`test, Times[2, Power[3, (-1)]]]", "True"},
		{"ex", "MatchQ[Private`test, Rational[Pattern[Private`a, Blank[Integer]], Pattern[Private`b, Blank[Integer]]]]", "True"},
		{"ex", "ReplaceAll[Times[2, Power[3, (-1)]], Rule[Rational[Pattern[Private`a, Blank[Integer]], Pattern[Private`b, Blank[Integer]]], {Private`a, Private`b}]]", "{2, 3}"},
		{"ex", "ReplaceAll[Times[2, Power[3, (-1)]], Rule[Times[Pattern[Private`a, Blank[Integer]], Power[Pattern[Private`b, Blank[Integer]], (-1)]], {Private`a, Private`b}]]", "Times[2, Power[3, (-1)]]"},
		{"ex", "Rational[10, 7]", "Times[10, Power[7, (-1)]]"},
		{"str", "Rational[x, 10]", "Rational[x, 10]"},
		{"str", "Rational[100, 10]", "10"},
		{"ex", "Rational[(-100), 10]", "(-10)"},
		{"str", "Rational[-100, -10]", "10"},
		{"ex", "Rational[(-10), 6]", "Times[(-5), Power[3, (-1)]]"},
		{"ex", "Rational[(-10), (-6)]", "Times[5, Power[3, (-1)]]"},
		{"str", "Rational[0, 5]", "0"},
		{"str", "Rational[0, n]", "Rational[0, n]"},
		{"str", "Rational[-1, 0]", "ComplexInfinity"},
		{"str", "Rational[-1, -0]", "ComplexInfinity"},
		{"str", "Rational[-0, -0]", "Indeterminate"},
		{"str", "Rational[-0, 0]", "Indeterminate"},
		{"ex", "ReplaceAll[Private`foo[Private`bar, Times[1, Power[2, (-1)]]], Rule[Private`foo[Pattern[Private`base, Blank[]], Times[1, Power[2, (-1)]]], Private`buzz[Private`base]]]", "Private`buzz[Private`bar]"},
		{"ex", "ReplaceAll[Private`foo[Private`bar, Times[1, Power[2, (-1)]]], Rule[Private`foo[Pattern[Private`base, Blank[]], Rational[1, 2]], Private`buzz[Private`base]]]", "Private`buzz[Private`bar]"},
		{"ex", "ReplaceAll[Private`foo[Private`bar, Rational[1, 2]], Rule[Private`foo[Pattern[Private`base, Blank[]], Times[1, Power[2, (-1)]]], Private`buzz[Private`base]]]", "Private`buzz[Private`bar]"},
		{"ex", "ReplaceAll[Private`foo[Private`bar, Rational[1, 2]], Rule[Private`foo[Pattern[Private`base, Blank[]], Rational[1, 2]], Private`buzz[Private`base]]]", "Private`buzz[Private`bar]"},
		{"ex", "MatchQ[Times[1, Power[2, (-1)]], Rational[1, 2]]", "True"},
		{"ex", "MatchQ[Rational[1, 2], Times[1, Power[2, (-1)]]]", "True"},
		{"ex", "SameQ[Hold[Rational[1, 2]], Hold[Times[1, Power[2, (-1)]]]]", "False"},
	}},
	{"atoms", "Complex", []docEx{
		{"ex", "Times[Plus[4, Times[8, I]], Plus[2, Times[3, I]]]", "Complex[(-16), 28]"},
	}},
	{"atoms", "String", []docEx{
		{"ex", "\"Hello\"", "\"Hello\""},
		{"ex", "Equal[\"Hello\", \"Hello\"]", "True"},
		{"ex", "Equal[\"Hello\", \"Hello world\"]", "False"},
		{"ex", "Head[\"Hello\"]", "String"},
	}},
	{"atoms", "Real", []docEx{
		{"ex", "Head[1.53]", "Real"},
		{"ex", "Head[1.]", "Real"},
		{"str", "10.^5000 / 10.^4999", "10."},
		{"ex", "MatchQ[1.53, Blank[Real]]", "True"},
	}},
	{"atoms", "Integer", []docEx{
		{"ex", "Head[153]", "Integer"},
		{"ex", "Factorial[40]", "815915283247897734345611269596115894272000000000"},
		{"ex", "MatchQ[153, Blank[Integer]]", "True"},
	}},
	{"atoms", "IntegerQ", []docEx{
		{"ex", "IntegerQ[Private`a]", "False"},
		{"ex", "IntegerQ[1]", "True"},
		{"ex", "IntegerQ[2.]", "False"},
	}},
	{"atoms", "Im", []docEx{
		{"ex", "Im[1]", "0"},
		{"ex", "Im[0.5]", "0"},
		{"ex", "Im[Times[2, Power[3, (-1)]]]", "0"},
		{"ex", "Im[Plus[2, I]]", "1"},
		{"ex", "Im[Times[1, Power[2, (-1)], Power[E, Times[I, Times[Pi, Power[4, (-1)]]]]]]", "Times[1, Power[Times[2, Sqrt[2]], (-1)]]"},
		{"ex", "Im[Times[Times[I, (-1)], Power[Sqrt[2], (-1)]]]", "Times[(-1), Power[Sqrt[2], (-1)]]"},
		{"ex", "Im[Times[Private`a, I, Private`b]]", "Re[Times[Private`a, Private`b]]"},
		{"ex", "Im[Plus[Times[Times[I, Power[Sqrt[2], (-1)]], (-1)], Times[1, Power[2, (-1)], Power[E, Times[Times[I, Pi], Power[4, (-1)]]]]]]", "Times[Times[1, Power[Times[2, Sqrt[2]], (-1)]], (-1)]"},
	}},
	{"atoms", "Re", []docEx{
		{"ex", "Re[1]", "1"},
		{"ex", "Re[0.5]", "0.5"},
		{"ex", "Re[Times[2, Power[3, (-1)]]]", "Times[2, Power[3, (-1)]]"},
		{"ex", "Re[Plus[2, I]]", "2"},
		{"ex", "Re[Times[1, Power[2, (-1)], Power[E, Times[I, Times[Pi, Power[4, (-1)]]]]]]", "Times[1, Power[Times[2, Sqrt[2]], (-1)]]"},
		{"ex", "Re[Plus[Private`foo, 1]]", "Plus[1, Re[Private`foo]]"},
		{"ex", "Re[Plus[Private`foo, 1, Private`bar]]", "Plus[1, Re[Plus[Private`foo, Private`bar]]]"},
		{"ex", "Re[Plus[Private`foo, I]]", "Re[Private`foo]"},
		{"ex", "Re[Plus[Private`foo, I, Private`bar]]", "Re[Plus[Private`foo, Private`bar]]"},
		{"ex", "Re[Times[Private`a, Power[2, (-1)]]]", "Times[Re[Private`a], Power[2, (-1)]]"},
	}},
	{"functional", "Function", []docEx{
		{"ex", "Function[Plus[1, Slot[1]]][Private`x]", "Plus[1, Private`x]"},
		{"ex", "Function[Plus[1, Slot[1], Times[2, Slot[2]]]][Private`x, Private`y]", "Plus[1, Private`x, Times[2, Private`y]]"},
		{"ex", "Function[Private`x, Power[Private`x, 2]][Private`a]", "Power[Private`a, 2]"},
		{"ex", "Function[Private`x, Power[Private`x, 2]][Private`a, Private`b]", "Power[Private`a, 2]"},
		{"ex", "Function[Private`x, Power[Private`x, 2]][Private`x]", "Power[Private`x, 2]"},
		{"ex", "Function[Private`x, Power[Private`x, 2]][(-2)]", "4"},
	}},
	{"functional", "Slot", []docEx{
		{"ex", "Function[Plus[1, Slot[1]]][Private`x]", "Plus[1, Private`x]"},
		{"ex", "Function[Plus[1, Slot[1], Times[2, Slot[2]]]][Private`x, Private`y]", "Plus[1, Private`x, Times[2, Private`y]]"},
		{"ex", "SameQ[Slot[1], Slot[1]]", "True"},
		{"ex", "SameQ[Slot[2], Slot[2]]", "True"},
		{"ex", "Function[Plus[Times[4, Slot[1]], Function[Times[2, Slot[1]]][Private`a]]][Private`b]", "Plus[Times[2, Private`a], Times[4, Private`b]]"},
		{"ex", "Function[Function[Private`foo[Private`test, Slot[1]]]][Private`j][Private`k]", "Private`foo[Private`test, Private`k]"},
	}},
	{"functional", "Apply", []docEx{
		{"ex", "Apply[Private`bar, Private`foo[Private`syma, Private`symb]]", "Private`bar[Private`syma, Private`symb]"},
		{"ex", "Apply[Private`bar, Private`foo[Private`syma, Private`symb]]", "Private`bar[Private`syma, Private`symb]"},
		{"ex", "Apply[List, Plus[Private`syma, Private`symb]]", "{Private`syma, Private`symb}"},
		{"ex", "Apply[Times, {2, 6}]", "12"},
		{"ex", "Apply[Times, {Private`a, Private`b}]", "Times[Private`a, Private`b]"},
		{"ex", "Apply[Private`foo, 1]", "1"},
		{"ex", "Apply[Private`foo, Private`bar]", "Private`bar"},
		{"ex", "Apply[Private`foo, {Private`a, Private`b, Private`c}]", "Private`foo[Private`a, Private`b, Private`c]"},
		{"ex", "Apply[Private`foo, {Private`bar, Private`buzz}]", "Private`foo[Private`bar, Private`buzz]"},
		{"ex", "Apply[Private`foo, {Private`bar, Private`buzz}]", "Private`foo[Private`bar, Private`buzz]"},
		{"ex", "Apply[Private`foo, {1, 2}]", "Private`foo[1, 2]"},
		{"ex", "Apply[Private`f, {{{Private`a}}}]", "Private`f[{{Private`a}}]"},
		{"ex", "Apply[Private`f, {{{Private`a}}}, {2}]", "{{Private`f[Private`a]}}"},
		{"ex", "Apply[Private`f, {{{Private`a}}}, {3}]", "{{{Private`a}}}"},
		{"ex", "Apply[Private`f, {{Private`a}, Private`foo[Private`b]}, {1}]", "{Private`f[Private`a], Private`f[Private`b]}"},
		{"ex", "Apply[Private`f, {{Private`a}, Private`foo[Private`b]}, {0}]", "Private`f[{Private`a}, Private`foo[Private`b]]"},
		{"ex", "Apply[Private`f, {{Private`a}, Private`foo[Private`b]}, {0, 1}]", "Private`f[Private`f[Private`a], Private`f[Private`b]]"},
		{"ex", "Apply[Private`f, {{Private`a, {Private`c}}, Private`foo[Private`b]}, {0, 1}]", "Private`f[Private`f[Private`a, {Private`c}], Private`f[Private`b]]"},
		{"ex", "Apply[Private`f, {{Private`a, {Private`c, {Private`d}}}, Private`foo[Private`b]}, {0, 2}]", "Private`f[Private`f[Private`a, Private`f[Private`c, {Private`d}]], Private`f[Private`b]]"},
		{"ex", "Apply[Private`f, {{Private`a, {Private`c, {Private`d}}}, Private`foo[Private`b]}, Infinity]", "{Private`f[Private`a, Private`f[Private`c, Private`f[Private`d]]], Private`f[Private`b]}"},
		{"ex", "Apply[Private`f, {{Private`a, {Private`c}}, Private`foo[Private`b]}, 2]", "{Private`f[Private`a, Private`f[Private`c]], Private`f[Private`b]}"},
	}},
	{"functional", "Map", []docEx{
		{"ex", "Map[Private`foo, {Private`a, Private`b, Private`c}]", "{Private`foo[Private`a], Private`foo[Private`b], Private`foo[Private`c]}"},
		{"ex", "Map[Private`foo, {Private`a, Private`b, Private`c}]", "{Private`foo[Private`a], Private`foo[Private`b], Private`foo[Private`c]}"},
		{"ex", "Map[Times, {2, 4, 9}]", "{2, 4, 9}"},
		{"ex", "Map[Private`foo, {{Private`a, Private`b}, Private`c}]", "{Private`foo[{Private`a, Private`b}], Private`foo[Private`c]}"},
		{"ex", "Map[Private`foo]", "Map[Private`foo]"},
		{"ex", "Map[Private`foo, Private`foo]", "Private`foo"},
		{"ex", "Map[Private`foo, Private`foo, Private`foo]", "Map[Private`foo, Private`foo, Private`foo]"},
		{"ex", "Map[Function[Private`x, Power[Private`x, 2]], {2, 4}]", "{4, 16}"},
		{"ex", "Map[Function[Power[Slot[1], 2]], {2, 4}]", "{4, 16}"},
		{"ex", "Private`f[Private`a[Private`f[Private`b[Private`f[Private`c], Private`f[Private`d], Private`f[Private`e]]], Private`f[Private`l[Private`f[Private`g[Private`f[Private`h], Private`f[Private`j]]], Private`f[Private`k]]]]]", "Map[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], {Times[Infinity, (-1)], Infinity}]"},
		{"ex", "Private`a[Private`f[Private`b[Private`f[Private`c], Private`f[Private`d], Private`f[Private`e]]], Private`f[Private`l[Private`f[Private`g[Private`f[Private`h], Private`f[Private`j]]], Private`f[Private`k]]]]", "Map[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], Infinity]"},
		{"ex", "Private`a[Private`f[Private`b[Private`f[Private`c], Private`f[Private`d], Private`f[Private`e]]], Private`l[Private`f[Private`g[Private`f[Private`h], Private`f[Private`j]]], Private`f[Private`k]]]", "Map[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], {(-2), Infinity}]"},
		{"ex", "Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`f[Private`g[Private`h, Private`j]], Private`k]]", "Map[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], {2, (-2)}]"},
		{"ex", "Private`a[Private`f[Private`b[Private`f[Private`c], Private`f[Private`d], Private`f[Private`e]]], Private`f[Private`l[Private`f[Private`g[Private`h, Private`j]], Private`f[Private`k]]]]", "Map[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], 2]"},
		{"ex", "Private`a[Private`f[Private`b[Private`c, Private`d, Private`e]], Private`f[Private`l[Private`f[Private`g[Private`h, Private`j]], Private`k]]]", "Map[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], (-2)]"},
	}},
	{"functional", "MapIndexed", []docEx{
		{"ex", "Private`f[Private`a[Private`f[Private`b[Private`f[Private`c, {1, 1}], Private`f[Private`d, {1, 2}], Private`f[Private`e, {1, 3}]], {1}], Private`f[Private`l[Private`f[Private`g[Private`f[Private`h, {2, 1, 1}], Private`f[Private`j, {2, 1, 2}]], {2, 1}], Private`f[Private`k, {2, 2}]], {2}]], {}]", "MapIndexed[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], {Times[Infinity, (-1)], Infinity}]"},
		{"ex", "Private`a[Private`f[Private`b[Private`f[Private`c, {1, 1}], Private`f[Private`d, {1, 2}], Private`f[Private`e, {1, 3}]], {1}], Private`f[Private`l[Private`f[Private`g[Private`f[Private`h, {2, 1, 1}], Private`f[Private`j, {2, 1, 2}]], {2, 1}], Private`f[Private`k, {2, 2}]], {2}]]", "MapIndexed[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], Infinity]"},
		{"ex", "Private`a[Private`f[Private`b[Private`f[Private`c, {1, 1}], Private`f[Private`d, {1, 2}], Private`f[Private`e, {1, 3}]], {1}], Private`l[Private`f[Private`g[Private`f[Private`h, {2, 1, 1}], Private`f[Private`j, {2, 1, 2}]], {2, 1}], Private`f[Private`k, {2, 2}]]]", "MapIndexed[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], {(-2), Infinity}]"},
		{"ex", "Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`f[Private`g[Private`h, Private`j], {2, 1}], Private`k]]", "MapIndexed[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], {2, (-2)}]"},
		{"ex", "Private`a[Private`f[Private`b[Private`f[Private`c, {1, 1}], Private`f[Private`d, {1, 2}], Private`f[Private`e, {1, 3}]], {1}], Private`f[Private`l[Private`f[Private`g[Private`h, Private`j], {2, 1}], Private`f[Private`k, {2, 2}]], {2}]]", "MapIndexed[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], 2]"},
		{"ex", "Private`a[Private`f[Private`b[Private`c, Private`d, Private`e], {1}], Private`f[Private`l[Private`f[Private`g[Private`h, Private`j], {2, 1}], Private`k], {2}]]", "MapIndexed[Private`f, Private`a[Private`b[Private`c, Private`d, Private`e], Private`l[Private`g[Private`h, Private`j], Private`k]], (-2)]"},
	}},
	{"functional", "FoldList", []docEx{
		{"ex", "FoldList[Private`f, 1, {2, 3}]", "{1, Private`f[1, 2], Private`f[Private`f[1, 2], 3]}"},
		{"ex", "FoldList[Private`f, {1, 2, 3}]", "{1, Private`f[1, 2], Private`f[Private`f[1, 2], 3]}"},
		{"ex", "FoldList[Private`f, Private`e1, Private`h[Private`e2, Private`e3, Private`e4]]", "Private`h[Private`e1, Private`f[Private`e1, Private`e2], Private`f[Private`f[Private`e1, Private`e2], Private`e3], Private`f[Private`f[Private`f[Private`e1, Private`e2], Private`e3], Private`e4]]"},
		{"ex", "FoldList[Private`f, Private`h, {}]", "{Private`h}"},
	}},
	{"functional", "Fold", []docEx{
		{"ex", "Fold[Private`f, 1, {2, 3}]", "Private`f[Private`f[1, 2], 3]"},
		{"ex", "Fold[Private`f, {1, 2, 3}]", "Private`f[Private`f[1, 2], 3]"},
		{"ex", "Fold[Private`f, Private`e1, Private`h[Private`e2, Private`e3, Private`e4]]", "Private`f[Private`f[Private`f[Private`e1, Private`e2], Private`e3], Private`e4]"},
		{"ex", "Fold[Private`f, Private`h, {}]", "Private`h"},
	}},
	{"functional", "NestList", []docEx{
		{"ex", "NestList[Private`f, Private`x, 3]", "{Private`x, Private`f[Private`x], Private`f[Private`f[Private`x]], Private`f[Private`f[Private`f[Private`x]]]}"},
		{"ex", "NestList[Function[Power[Slot[1], 2]], {1, 2, 3}, 3]", "{{1, 2, 3}, {1, 4, 9}, {1, 16, 81}, {1, 256, 6561}}"},
	}},
	{"functional", "Nest", []docEx{
		{"ex", "Nest[Private`f, Private`x, 3]", "Private`f[Private`f[Private`f[Private`x]]]"},
		{"ex", "Nest[Function[Power[Slot[1], 2]], {1, 2, 3}, 3]", "{1, 256, 6561}"},
	}},
	{"functional", "NestWhileList", []docEx{
		{"ex", "Length[NestWhileList[Function[Times[Plus[Slot[1], Times[3, Power[Slot[1], (-1)]]], Power[2, (-1)]]], 1., Function[UnsameQ[Slot[1], Slot[2]]], 2]]", "7"},
		{"ex", "NestWhileList[Function[Power[Slot[1], 2]], 2, Function[Less[Slot[1], 256]]]", "{2, 4, 16, 256}"},
		{"ex", "NestWhileList[Function[Plus[Slot[1], 1]], 1, Function[Less[Plus[Slot[1], Slot[4]], 10]], 4]", "{1, 2, 3, 4, 5, 6, 7}"},
		{"ex", "NestWhileList[Function[Plus[Slot[1], 1]], 1, Function[True], 1, 4]", "{1, 2, 3, 4, 5}"},
		{"ex", "NestWhileList[Function[Plus[Slot[1], 1]], 1, Function[True], 1, 4, 5]", "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}"},
	}},
	{"functional", "NestWhile", []docEx{
		{"ex", "NestWhile[Function[Power[Slot[1], 2]], 2, Function[Less[Slot[1], 256]]]", "256"},
		{"ex", "NestWhile[Function[Plus[Slot[1], 1]], 1, Function[Less[Plus[Slot[1], Slot[4]], 10]], 4]", "7"},
		{"ex", "NestWhile[Function[Plus[Slot[1], 1]], 1, Function[True], 1, 4]", "5"},
		{"ex", "NestWhile[Function[Plus[Slot[1], 1]], 1, Function[True], 1, 4, 5]", "10"},
	}},
	{"functional", "FixedPointList", []docEx{
		{"ex", "Length[FixedPointList[Function[Times[Plus[Slot[1], Times[3, Power[Slot[1], (-1)]]], Power[2, (-1)]]], 1.]]", "7"},
		{"ex", "FixedPointList[Function[D[Slot[1], Private`x]], Power[Private`x, 3]]", "{Power[Private`x, 3], Times[3, Power[Private`x, 2]], Times[6, Private`x], 6, 0, 0}"},
	}},
	{"functional", "FixedPoint", []docEx{
		{"ex", "FixedPoint[Function[D[Slot[1], Private`x]], Power[Private`x, 3]]", "0"},
	}},
	{"functional", "Array", []docEx{
		{"ex", "Array[Private`f, 3]", "{Private`f[1], Private`f[2], Private`f[3]}"},
		{"ex", "SetDelayed[Private`mytest[Pattern[Private`x, Blank[]]], 5]", "Null"},
		{"ex", "Array[Private`mytest, 3]", "{5, 5, 5}"},
		{"ex", "Array[Plus[Private`a, Private`b], 3]", "{Plus[Private`a, Private`b][1], Plus[Private`a, Private`b][2], Plus[Private`a, Private`b][3]}"},
		{"ex", "Array[Private`a, Private`a]", "Array[Private`a, Private`a]"},
	}},
	{"functional", "Identity", []docEx{
		{"ex", "Identity[5]", "5"},
		{"ex", "Identity[Identity[Private`a]]", "Private`a"},
	}},
	{"expression", "Head", []docEx{
		{"ex", "Head[Private`f[Private`x]]", "Private`f"},
		{"ex", "Head[Private`x]", "Symbol"},
		{"ex", "Head[{Private`x}]", "List"},
		{"ex", "Head[Plus[Private`a, Private`b]]", "Plus"},
		{"ex", "Head[1]", "Integer"},
		{"ex", "Head[1.]", "Real"},
		{"ex", "Head[Times[2, Power[7, (-1)]]]", "Rational"},
		{"ex", "Head[Times[1, Power[7, (-1)]]]", "Rational"},
		{"ex", "Head[\"1\"]", "String"},
		{"ex", "Head[Head[Plus[Private`a, Private`b][Private`x]]]", "Plus"},
	}},
	{"expression", "Depth", []docEx{
		{"ex", "Depth[Private`foo]", "1"},
		{"ex", "Depth[{Private`foo}]", "2"},
		{"ex", "Depth[Private`bar[Private`foo, Private`bar]]", "2"},
		{"ex", "Depth[Private`foo[Private`foo[]]]", "3"},
		{"ex", "Depth[3]", "1"},
		{"ex", "Depth[3.5]", "1"},
		{"ex", "Depth[Times[3, Power[5, (-1)]]]", "1"},
		{"ex", "Depth[Private`foo[{{{}}}][]]", "2"},
	}},
	{"expression", "Length", []docEx{
		{"ex", "Length[{1, 2, 3, 4}]", "4"},
		{"ex", "Length[{}]", "0"},
		{"ex", "Length[{5}]", "1"},
		{"ex", "Length[Private`foo[1, 2]]", "2"},
		{"ex", "Length[Private`a]", "0"},
		{"ex", "Length[2.5]", "0"},
		{"ex", "Length[\"hello\"]", "0"},
	}},
	{"expression", "Sequence", []docEx{
		{"ex", "Private`foo[Private`a, Sequence[2, 3]]", "Private`foo[Private`a, 2, 3]"},
		{"ex", "Sequence[2, 3]", "Sequence[2, 3]"},
		{"ex", "Plus[Sequence[2, 3], Sequence[5, 4]]", "14"},
		{"ex", "Times[Sequence[2, 3], Sequence[5, 4]]", "120"},
		{"ex", "Private`foo[Sequence[]]", "Private`foo[]"},
		{"ex", "Sequence[2]", "Sequence[2]"},
		{"ex", "Sequence[2, 3]", "Sequence[2, 3]"},
		{"ex", "Private`foo[Sequence[2, 3]]", "Private`foo[2, 3]"},
		{"ex", "Private`foo[Sequence[2]]", "Private`foo[2]"},
		{"ex", "Private`foo[Plus[Sequence[2, 3], Sequence[5, 4]]]", "Private`foo[14]"},
		{"ex", "Private`foo[Sequence[2, 3], Sequence[5, 4]]", "Private`foo[2, 3, 5, 4]"},
		{"ex", "Equal[Sequence[2, 3], Sequence[2, 3]]", "False"},
		{"ex", "Equal[Sequence[2, 2], Sequence[2]]", "True"},
		{"ex", "SameQ[Sequence[2, 3], Sequence[2, 3]]", "False"},
		{"ex", "SameQ[Sequence[2, 2], Sequence[2]]", "True"},
	}},
	{"expression", "Evaluate", []docEx{
		{"str", "Hold[Evaluate[1 + 3], 2 + 1]", "Hold[4, 2 + 1]"},
		{"str", "Hold[foo[Evaluate[1 + 1]]]", "Hold[foo[Evaluate[1 + 1]]]"},
		{"str", "Hold[Evaluate[1 + 3, 5 + 2], 2 + 1]", "Hold[4, 7, 2 + 1]"},
		{"str", "Hold[Sequence[1 + 3, 5 + 2], 2 + 1]", "Hold[1 + 3, 5 + 2, 2 + 1]"},
	}},
	{"expression", "Hold", []docEx{
		{"str", "Hold[Power[5, 3]]", "Hold[5^3]"},
		{"str", "Hold[Power[5., 3.]]", "Hold[5.^3.]"},
	}},
	{"expression", "HoldForm", []docEx{
		{"str", "HoldForm[Power[5, 3]]", "(5^3)"},
		{"str", "HoldForm[Power[5., 3.]]", "(5.^3.)"},
	}},
	{"expression", "Flatten", []docEx{
		{"ex", "Flatten[1]", "Flatten[1]"},
		{"ex", "Flatten[{1}]", "{1}"},
		{"ex", "Flatten[{{{{1}}}}]", "{1}"},
		{"ex", "Flatten[{{{{1}, 2}}, 3}]", "{1, 2, 3}"},
		{"ex", "Flatten[{{{{1}, 2}}, 3, 4}]", "{1, 2, 3, 4}"},
		{"ex", "Flatten[{(-1), {{{1}, 2}}, 3, 4}]", "{(-1), 1, 2, 3, 4}"},
		{"ex", "Flatten[{(-1), {{{1}, 2}}, 3, 4}, 0]", "{(-1), {{{1}, 2}}, 3, 4}"},
		{"ex", "Flatten[{(-1), {{{1}, 2}}, 3, 4}, 1]", "{(-1), {{1}, 2}, 3, 4}"},
		{"ex", "Flatten[{(-1), {{{1}, 2}}, 3, 4}, 2]", "{(-1), {1}, 2, 3, 4}"},
		{"ex", "Flatten[{(-1), {{{1}, 2}}, 3, 4}, 3]", "{(-1), 1, 2, 3, 4}"},
		{"ex", "Flatten[{(-1), {{{1}, 2}}, 3, 4}, 4]", "{(-1), 1, 2, 3, 4}"},
		{"ex", "Flatten[{(-1), {{{1}, 2}}, 3, 4}, Private`a]", "Flatten[{(-1), {{{1}, 2}}, 3, 4}, Private`a]"},
		{"ex", "Flatten[{(-1), {Private`foo[{{1}, 2}]}, 3, 4}, 999]", "{(-1), Private`foo[{{1}, 2}], 3, 4}"},
		{"ex", "Flatten[{(-1), {Private`foo[{{1}, 2}]}, 3, 4}, 999]", "{(-1), Private`foo[{{1}, 2}], 3, 4}"},
		{"ex", "Flatten[{(-1), {1[{{1}, 2}]}, 3, 4}, 999]", "{(-1), 1[{{1}, 2}], 3, 4}"},
	}},
	{"expression", "LeafCount", []docEx{
		{"ex", "LeafCount[Plus[Private`a, Private`b]]", "3"},
		{"ex", "LeafCount[Plus[Power[Private`a, 2], Power[Private`b, Factorial[Private`c]]]]", "8"},
		{"ex", "LeafCount[Private`a]", "1"},
	}},
	{"expression", "Unevaluated", []docEx{
		{"ex", "Apply[List, Unevaluated[Plus[1, 2]]]", "{1, 2}"},
	}},
	{"expression", "HoldComplete", []docEx{
		{"ex", "HoldComplete[Evaluate[Plus[Private`a, Private`a]], Plus[2, 2], Sequence[Private`a, Private`b]]", "HoldComplete[Evaluate[Plus[Private`a, Private`a]], Plus[2, 2], Sequence[Private`a, Private`b]]"},
		{"ex", "Length[HoldComplete[Evaluate[Plus[Private`a, Private`a]], Plus[2, 2], Sequence[Private`a, Private`b]]]", "3"},
	}},
	{"solve", "Solve", []docEx{
		{"ex", "Solve[Equal[Power[Plus[Private`a, Private`b], Private`x], Private`y], Private`x]", "{{Rule[Private`x, Times[Log[Private`y], Power[Log[Plus[Private`a, Private`b]], (-1)]]]}}"},
		{"ex", "Solve[Equal[Private`y, Plus[Power[Private`x, 2], 3]], Private`x]", "{{Rule[Private`x, Times[Sqrt[Plus[(-3), Private`y]], (-1)]]}, {Rule[Private`x, Sqrt[Plus[(-3), Private`y]]]}}"},
		{"ex", "Solve[Equal[2, Plus[Power[Private`x, 2], Power[Private`y, 2], Power[Plus[Private`x, Times[2, (-1)]], 2], Power[Plus[Private`y, Times[2, (-1)]], 2]]], Private`y]", "{{Rule[Private`y, Plus[1, Times[Sqrt[Plus[(-2), Times[2, Private`x], Times[Power[Private`x, 2], (-1)]]], (-1)]]]}, {Rule[Private`y, Plus[1, Sqrt[Plus[(-2), Times[2, Private`x], Times[Power[Private`x, 2], (-1)]]]]]}}"},
		{"ex", "Solve[Equal[Private`x, 0], Private`x]", "{{Rule[Private`x, 0]}}"},
		{"ex", "Solve[Equal[Private`x, Private`b], Private`x]", "{{Rule[Private`x, Private`b]}}"},
		{"ex", "Solve[Equal[Plus[Private`a, 1.5], 3], Private`a]", "{{Rule[Private`a, 1.5]}}"},
		{"ex", "Solve[Equal[Times[Private`x, Private`a], Private`b], Private`x]", "{{Rule[Private`x, Times[Private`b, Power[Private`a, (-1)]]]}}"},
		{"ex", "Solve[Equal[Times[Private`x, Power[Private`a, (-1)]], Private`b], Private`x]", "{{Rule[Private`x, Times[Private`a, Private`b]]}}"},
		{"ex", "Solve[Equal[Plus[Times[Private`m, Private`x], Private`b], 0], Private`x]", "{{Rule[Private`x, Times[Times[Private`b, Power[Private`m, (-1)]], (-1)]]}}"},
		{"ex", "Solve[Equal[Plus[Times[Private`m, Private`x], Private`b], Private`c], Private`x]", "{{Rule[Private`x, Times[Plus[Times[Private`b, (-1)], Private`c], Power[Private`m, (-1)]]]}}"},
		{"ex", "Solve[Equal[Power[Private`x, 2], Private`a], Private`x]", "{{Rule[Private`x, Times[Sqrt[Private`a], (-1)]]}, {Rule[Private`x, Sqrt[Private`a]]}}"},
		{"ex", "Solve[Equal[Power[Private`x, Private`a], Private`b], Private`x]", "{{Rule[Private`x, Power[Private`b, Times[1, Power[Private`a, (-1)]]]]}}"},
		{"ex", "Solve[Equal[Private`y, Plus[Power[Private`x, 2], 3]], Private`x]", "{{Rule[Private`x, Times[Sqrt[Plus[(-3), Private`y]], (-1)]]}, {Rule[Private`x, Sqrt[Plus[(-3), Private`y]]]}}"},
		{"ex", "Solve[Equal[Power[Private`x, Plus[Times[5, Private`y], Sin[Private`y]]], 2], Private`x]", "{{Rule[Private`x, Power[2, Times[1, Power[Plus[Times[5, Private`y], Sin[Private`y]], (-1)]]]]}}"},
		{"ex", "Solve[Equal[Power[Private`a, 2], Power[Private`b, 2]], Private`a]", "{{Rule[Private`a, Times[Private`b, (-1)]]}, {Rule[Private`a, Private`b]}}"},
		{"ex", "Solve[Equal[Power[Private`x, Times[1, Power[2, (-1)]]], (-1)], Private`x]", "{}"},
		{"ex", "Solve[Equal[Sqrt[Private`x], Private`y], Private`x]", "{{Rule[Private`x, Power[Private`y, 2]]}}"},
		{"ex", "Solve[Equal[Power[Private`x, Times[1, Power[9, (-1)]]], Private`y], Private`x]", "{{Rule[Private`x, Power[Private`y, 9]]}}"},
		{"ex", "Solve[Equal[Power[Private`x, Times[1, Power[6, (-1)]]], Times[I, (-1)]], Private`x]", "{}"},
		{"ex", "Solve[Equal[Power[Plus[Private`a, Private`b], Private`x], Private`y], Private`x]", "{{Rule[Private`x, Times[Log[Private`y], Power[Log[Plus[Private`a, Private`b]], (-1)]]]}}"},
		{"ex", "Solve[Equal[Times[4, Power[E, Times[2, Private`x]]], 5], Private`x]", "{{Rule[Private`x, ConditionalExpression[Times[1, Power[2, (-1)], Plus[Times[2, I, Pi, C[1]], Log[Times[5, Power[4, (-1)]]]]], Element[C[1], Integers]]]}}"},
		{"ex", "Solve[Equal[Power[E, Private`x], 5], Private`x]", "{{Rule[Private`x, ConditionalExpression[Plus[Times[2, I, Pi, C[1]], Log[5]], Element[C[1], Integers]]]}}"},
		{"ex", "Solve[Equal[Power[E, Private`x], 0], Private`x]", "{}"},
		{"ex", "Solve[Equal[Power[E, Private`x], 1], Private`x]", "{{Rule[Private`x, ConditionalExpression[Times[2, I, Pi, C[1]], Element[C[1], Integers]]]}}"},
		{"ex", "Solve[Equal[Power[3, Private`x], Private`y], Private`x]", "Simplify[{{Rule[Private`x, ConditionalExpression[Plus[Times[Times[2, I, Pi, C[1]], Power[Log[3], (-1)]], Times[Log[Private`y], Power[Log[3], (-1)]]], Element[C[1], Integers]]]}}]"},
		{"ex", "Solve[Equal[Power[2, Private`x], Private`y], Private`x]", "Simplify[{{Rule[Private`x, ConditionalExpression[Plus[Times[Times[2, I, Pi, C[1]], Power[Log[2], (-1)]], Times[Log[Private`y], Power[Log[2], (-1)]]], Element[C[1], Integers]]]}}]"},
		{"ex", "Solve[Equal[Power[(-2), Private`x], Private`y], Private`x]", "{{Rule[Private`x, ConditionalExpression[Times[Plus[Times[2, I, Pi, C[1]], Log[Private`y]], Power[Plus[Times[I, Pi], Log[2]], (-1)]], Element[C[1], Integers]]]}}"},
		{"ex", "Solve[Equal[Power[(-3), Private`x], Private`y], Private`x]", "{{Rule[Private`x, ConditionalExpression[Times[Plus[Times[2, I, Pi, C[1]], Log[Private`y]], Power[Plus[Times[I, Pi], Log[3]], (-1)]], Element[C[1], Integers]]]}}"},
		{"ex", "Solve[Equal[Plus[Private`y, Private`b], Plus[Log[Plus[Private`x, Private`y]], Private`z]], Private`x]", "{{Rule[Private`x, ConditionalExpression[Plus[Power[E, Plus[Private`b, Private`y, Times[Private`z, (-1)]]], Times[Private`y, (-1)]], Inequality[Times[Pi, (-1)], Less, Im[Plus[Private`b, Private`y, Times[Private`z, (-1)]]], LessEqual, Pi]]]}}"},
		{"ex", "Solve[Equal[Log[Sin[Private`x]], Private`y], Private`x]", "Sort[{{Rule[Private`x, ConditionalExpression[Plus[Pi, Times[ArcSin[Power[E, Private`y]], (-1)], Times[2, Pi, C[1]]], And[Element[C[1], Integers], Inequality[Times[Pi, (-1)], Less, Im[Private`y], LessEqual, Pi]]]]}, {Rule[Private`x, ConditionalExpression[Plus[ArcSin[Power[E, Private`y]], Times[2, Pi, C[1]]], And[Element[C[1], Integers], Inequality[Times[Pi, (-1)], Less, Im[Private`y], LessEqual, Pi]]]]}}]"},
		{"ex", "Solve[Equal[Abs[Plus[Private`a, Private`b]], 2], Private`a]", "{{Rule[Private`a, Plus[(-2), Times[Private`b, (-1)]]]}, {Rule[Private`a, Plus[2, Times[Private`b, (-1)]]]}}"},
		{"ex", "Solve[Equal[Plus[Sin[Plus[Private`x, Private`b]], Private`c], Private`d], Private`x]", "{{Rule[Private`x, ConditionalExpression[Plus[Times[Private`b, (-1)], Times[ArcSin[Plus[Private`c, Times[Private`d, (-1)]]], (-1)], Times[2, Pi, C[1]]], Element[C[1], Integers]]]}, {Rule[Private`x, ConditionalExpression[Plus[Times[Private`b, (-1)], Pi, ArcSin[Plus[Private`c, Times[Private`d, (-1)]]], Times[2, Pi, C[1]]], Element[C[1], Integers]]]}}"},
		{"ex", "Solve[Equal[Cos[Plus[Private`a, Private`b]], 2], Private`a]", "{{Rule[Private`a, ConditionalExpression[Plus[Times[Private`b, (-1)], Times[ArcCos[2], (-1)], Times[2, Pi, C[1]]], Element[C[1], Integers]]]}, {Rule[Private`a, ConditionalExpression[Plus[Times[Private`b, (-1)], ArcCos[2], Times[2, Pi, C[1]]], Element[C[1], Integers]]]}}"},
		{"ex", "Private`normSol[Solve[Equal[Cos[Sin[Private`x]], Private`y], Private`x]]", "Private`normSol[{{Rule[Private`x, ConditionalExpression[Plus[Times[ArcSin[Plus[ArcCos[Private`y], Times[Times[2, Pi, C[2]], (-1)]]], (-1)], Times[2, Pi, C[1]]], And[Element[C[2], Integers], Element[C[1], Integers]]]]}, {Rule[Private`x, ConditionalExpression[Plus[Pi, ArcSin[Plus[ArcCos[Private`y], Times[Times[2, Pi, C[2]], (-1)]]], Times[2, Pi, C[1]]], And[Element[C[2], Integers], Element[C[1], Integers]]]]}, {Rule[Private`x, ConditionalExpression[Plus[Pi, Times[ArcSin[Plus[ArcCos[Private`y], Times[2, Pi, C[2]]]], (-1)], Times[2, Pi, C[1]]], And[Element[C[2], Integers], Element[C[1], Integers]]]]}, {Rule[Private`x, ConditionalExpression[Plus[ArcSin[Plus[ArcCos[Private`y], Times[2, Pi, C[2]]]], Times[2, Pi, C[1]]], And[Element[C[2], Integers], Element[C[1], Integers]]]]}}]"},
		{"ex", "Solve[Equal[Sin[ArcSin[Plus[Private`x, Private`b]]], Private`y], Private`x]", "{{Rule[Private`x, Plus[Times[Private`b, (-1)], Private`y]]}}"},
		{"ex", "Private`normSol[Solve[Equal[ArcSin[Sin[Private`x]], Private`y], Private`x]]", "Private`normSol[{{Rule[Private`x, ConditionalExpression[Plus[Pi, Times[ArcSin[Sin[Private`y]], (-1)], Times[2, Pi, C[1]]], And[Or[And[Equal[Re[Private`y], Times[Times[Pi, Power[2, (-1)]], (-1)]], GreaterEqual[Im[Private`y], 0]], Less[Times[Times[Pi, Power[2, (-1)]], (-1)], Re[Private`y], Times[Pi, Power[2, (-1)]]], And[Equal[Re[Private`y], Times[Pi, Power[2, (-1)]]], LessEqual[Im[Private`y], 0]]], Element[C[1], Integers]]]]}, {Rule[Private`x, ConditionalExpression[Plus[ArcSin[Sin[Private`y]], Times[2, Pi, C[1]]], And[Or[And[Equal[Re[Private`y], Times[Times[Pi, Power[2, (-1)]], (-1)]], GreaterEqual[Im[Private`y], 0]], Less[Times[Times[Pi, Power[2, (-1)]], (-1)], Re[Private`y], Times[Pi, Power[2, (-1)]]], And[Equal[Re[Private`y], Times[Pi, Power[2, (-1)]]], LessEqual[Im[Private`y], 0]]], Element[C[1], Integers]]]]}}]"},
		{"str", "Solve[PDF[NormalDistribution[0, 1], x] == .1, x]", "{{x -> -1.66352}, {x -> 1.66352}}"},
		{"ex", "Solve[Equal[Times[Private`a, Power[Private`x, 2]], Plus[Times[Private`b, (-1), Private`x], Times[Private`c, (-1)]]], Private`x]", "{{Rule[Private`x, Times[Plus[Times[Private`b, (-1)], Times[Sqrt[Plus[Power[Private`b, 2], Times[Times[4, Private`a, Private`c], (-1)]]], (-1)]], Power[Times[2, Private`a], (-1)]]]}, {Rule[Private`x, Times[Plus[Times[Private`b, (-1)], Sqrt[Plus[Power[Private`b, 2], Times[Times[4, Private`a, Private`c], (-1)]]]], Power[Times[2, Private`a], (-1)]]]}}"},
		{"ex", "Solve[Equal[Times[Private`a, Power[Private`x, 2]], Plus[Times[Private`b, (-1), Private`x], Times[Private`foo[Private`x], (-1)]]], Private`x]", "Solve[Equal[Times[Private`a, Power[Private`x, 2]], Plus[Times[Private`b, (-1), Private`x], Times[Private`foo[Private`x], (-1)]]], Private`x]"},
		{"ex", "Solve[Equal[Times[Private`a, Power[Private`x, 2]], Times[Private`c, (-1)]], Private`x]", "{{Rule[Private`x, Times[Times[Times[I, Sqrt[Private`c]], Power[Sqrt[Private`a], (-1)]], (-1)]]}, {Rule[Private`x, Times[Times[I, Sqrt[Private`c]], Power[Sqrt[Private`a], (-1)]]]}}"},
		{"ex", "Solve[Equal[Power[Private`x, 2], Times[Private`c, (-1)]], Private`x]", "{{Rule[Private`x, Times[I, (-1), Sqrt[Private`c]]]}, {Rule[Private`x, Times[I, Sqrt[Private`c]]]}}"},
		{"ex", "Solve[Equal[Plus[Times[3, Private`x], 1], Plus[Times[2, Private`x], 5]], Private`x]", "{{Rule[Private`x, 4]}}"},
		{"ex", "Solve[Equal[Plus[Times[5, Plus[Times[4, Private`x], Times[3, (-1)]]], Times[4, Plus[Times[6, Private`x], 1]]], Plus[Times[7, Plus[Times[2, Private`x], 3]], 2]], Private`x]", "{{Rule[Private`x, Times[17, Power[15, (-1)]]]}}"},
		{"ex", "Solve[Equal[Power[Private`x, Times[1, Power[2, (-1)]]], (-2)], Private`x]", "{}"},
		{"ex", "Solve[Equal[Power[Private`x, Times[1, Power[4, (-1)]]], (-2)], Private`x]", "{}"},
		{"ex", "Solve[False, Private`x]", "{}"},
		{"ex", "Solve[False, Private`x]", "{}"},
		{"ex", "Solve[False, Private`x]", "{}"},
		{"ex", "Solve[{}, Private`x]", "{{}}"},
		{"ex", "Solve[Equal[Private`x, 0], Private`x]", "{{Rule[Private`x, 0]}}"},
		{"ex", "Solve[Equal[Private`x, 0], Private`x]", "{{Rule[Private`x, 0]}}"},
		{"ex", "Solve[Equal[Plus[1, Power[Private`x, Times[1, Power[2, (-1)]]]], 0], Private`x]", "{}"},
		{"ex", "Solve[Equal[Times[2, Private`x], 0], Private`x]", "{{Rule[Private`x, 0]}}"},
		{"ex", "Solve[Equal[Plus[Power[Private`x, 2], Times[Pi, (-1)]], 0], Private`pi]", "{}"},
		{"ex", "Solve[Equal[Plus[(-3), Private`y], 0], Private`y]", "{{Rule[Private`y, 3]}}"},
		{"ex", "Solve[Equal[Plus[Private`a, Private`x], 0], Private`x]", "{{Rule[Private`x, Times[Private`a, (-1)]]}}"},
		{"ex", "Solve[Equal[Plus[Private`y, Times[Private`x, Private`y]], 0], Private`x]", "{{Rule[Private`x, (-1)]}}"},
		{"ex", "Solve[Equal[Plus[(-2), Power[Private`x, Times[1, Power[4, (-1)]]]], 0], Private`x]", "{{Rule[Private`x, 16]}}"},
		{"ex", "Solve[Equal[Plus[(-3), Power[Private`x, Times[1, Power[3, (-1)]]]], 0], Private`x]", "{{Rule[Private`x, 27]}}"},
		{"ex", "Solve[Equal[Plus[(-2), Power[Private`x, Times[1, Power[2, (-1)]]]], 0], Private`x]", "{{Rule[Private`x, 4]}}"},
		{"ex", "Solve[Equal[Plus[(-1), Power[Private`x, Times[1, Power[2, (-1)]]]], 0], Private`x]", "{{Rule[Private`x, 1]}}"},
		{"ex", "Solve[Equal[Plus[(-2), Times[3, Private`x]], 0], Private`x]", "{{Rule[Private`x, Times[2, Power[3, (-1)]]]}}"},
		{"ex", "Solve[Equal[Plus[(-2), Times[3, Private`x]], 0], Private`x]", "{{Rule[Private`x, Times[2, Power[3, (-1)]]]}}"},
		{"ex", "Solve[Equal[Plus[1, Power[Private`x, Times[1, Power[3, (-1)]]], Power[Private`x, Times[1, Power[2, (-1)]]]], 0], Private`x]", "{}"},
		{"ex", "Solve[Equal[Plus[(-4), Power[Private`x, 2]], 0], Private`x]", "{{Rule[Private`x, (-2)]}, {Rule[Private`x, 2]}}"},
		{"ex", "Solve[Equal[Plus[(-4), Power[Private`x, 2]], 0], Private`x]", "{{Rule[Private`x, (-2)]}, {Rule[Private`x, 2]}}"},
		{"ex", "Solve[Equal[Plus[(-1), Power[Private`x, 2]], 0], Private`x]", "{{Rule[Private`x, (-1)]}, {Rule[Private`x, 1]}}"},
		{"ex", "Solve[Equal[Plus[(-1), Power[Private`x, 2]], 0], Private`x]", "{{Rule[Private`x, (-1)]}, {Rule[Private`x, 1]}}"},
		{"ex", "Solve[Equal[Plus[(-1), Power[Private`x, 2]], 0], Private`x]", "{{Rule[Private`x, (-1)]}, {Rule[Private`x, 1]}}"},
		{"ex", "Solve[Equal[Plus[Private`x, Times[Power[Private`y, 3], (-1)]], 0], Private`x]", "{{Rule[Private`x, Power[Private`y, 3]]}}"},
		{"ex", "Solve[Equal[Plus[Private`x, Times[Power[E, Private`x], (-1)]], 0], Private`x]", "{{Rule[Private`x, Times[ProductLog[(-1)], (-1)]]}}"},
		{"ex", "Solve[Equal[Times[Private`x, Plus[(-3), Power[Private`x, Times[1, Power[3, (-1)]]]]], 0], Private`x]", "{{Rule[Private`x, 0]}, {Rule[Private`x, 27]}}"},
		{"ex", "Solve[Equal[Plus[Power[2, Times[1, Power[4, (-1)]]], Private`x], 0], Private`x]", "{{Rule[Private`x, Times[Power[2, Times[1, Power[4, (-1)]]], (-1)]]}}"},
		{"ex", "Solve[Equal[Plus[Power[2, Times[1, Power[2, (-1)]]], Private`x], 0], Private`x]", "{{Rule[Private`x, Times[Power[2, Times[1, Power[2, (-1)]]], (-1)]]}}"},
		{"ex", "Solve[Equal[Plus[1, Power[Private`x, 2]], 0], Private`x]", "{{Rule[Private`x, Plus[0, Times[(-1), I]]]}, {Rule[Private`x, Plus[0, Times[1, I]]]}}"},
		{"ex", "Solve[Equal[Plus[Private`y, Times[Private`x, Power[E, Private`y]]], 0], Private`x]", "{{Rule[Private`x, Times[Private`y, (-1), Power[E, Times[(-1), Private`y]]]]}}"},
		{"ex", "Solve[Equal[Times[4, Private`x, Plus[1, Times[Power[Private`x, Times[1, Power[2, (-1)]]], (-1)]]], 0], Private`x]", "{{Rule[Private`x, 0]}, {Rule[Private`x, 1]}}"},
		{"ex", "Solve[Equal[Plus[Times[Private`a, Power[Private`x, Private`b]], Times[Private`y, (-1)]], 0], Private`x]", "{{Rule[Private`x, Power[Times[Power[Private`a, (-1)], Private`y], Power[Private`b, (-1)]]]}}"},
		{"ex", "Solve[Equal[Times[4, Private`x, Plus[1, Times[Private`a, (-1), Power[Private`x, Times[1, Power[2, (-1)]]]]]], 0], Private`x]", "{{Rule[Private`x, 0]}, {Rule[Private`x, Power[Private`a, (-2)]]}}"},
		{"ex", "Solve[Equal[Plus[1, Power[E, Private`x]], 0], Private`x]", "Simplify[{{Rule[Private`x, ConditionalExpression[Plus[Times[Plus[0, Times[1, I]], Pi], Times[Plus[0, Times[2, I]], Pi, C[1]]], Element[C[1], Integers]]]}}]"},
		{"ex", "Solve[Equal[Times[Power[Private`y, (-2)], Power[Plus[1, Times[Power[Private`y, 2], (-1)]], Times[(-1), Power[2, (-1)]]], Plus[Private`x, Times[Power[Private`y, 3], (-1)]]], 0], Private`x]", "{{Rule[Private`x, Power[Private`y, 3]]}}"},
		{"ex", "Solve[Equal[Times[Power[Private`y, (-2)], Power[Plus[1, Times[Power[Private`y, 2], (-1)]], Times[(-1), Power[2, (-1)]]], Plus[Private`x, Times[Power[Private`y, 3], (-1)]]], 0], Private`x]", "{{Rule[Private`x, Power[Private`y, 3]]}}"},
		{"ex", "Solve[Equal[Plus[(-10), Power[3, Private`x]], 0], Private`x]", "Simplify[{{Rule[Private`x, ConditionalExpression[Plus[Times[Plus[0, Times[2, I]], Pi, C[1], Power[Log[3], (-1)]], Times[Power[Log[3], (-1)], Log[10]]], Element[C[1], Integers]]]}}]"},
		{"ex", "Solve[Equal[Plus[10, Times[Power[3, Private`x], (-1)]], 0], Private`x]", "Simplify[{{Rule[Private`x, ConditionalExpression[Plus[Times[Plus[0, Times[2, I]], Pi, C[1], Power[Log[3], (-1)]], Times[Power[Log[3], (-1)], Log[10]]], Element[C[1], Integers]]]}}]"},
		{"ex", "Solve[Equal[Plus[Private`x, Times[Power[Private`y, 3], (-1)]], 0], Private`y]", "{{Rule[Private`y, Power[Private`x, Times[1, Power[3, (-1)]]]]}, {Rule[Private`y, Times[Power[(-1), Times[1, Power[3, (-1)]]], (-1), Power[Private`x, Times[1, Power[3, (-1)]]]]]}, {Rule[Private`y, Times[Power[(-1), Times[2, Power[3, (-1)]]], Power[Private`x, Times[1, Power[3, (-1)]]]]]}}"},
		{"ex", "Solve[Equal[Plus[Times[Private`y, (-1)], Times[2, Cos[Private`x]]], 0], Private`x]", "{{Rule[Private`x, ConditionalExpression[Plus[Times[ArcCos[Times[Times[1, Power[2, (-1)]], Private`y]], (-1)], Times[2, Pi, C[1]]], Element[C[1], Integers]]]}, {Rule[Private`x, ConditionalExpression[Plus[ArcCos[Times[Times[1, Power[2, (-1)]], Private`y]], Times[2, Pi, C[1]]], Element[C[1], Integers]]]}}"},
		{"ex", "Solve[Equal[Plus[Times[Private`a, (-1)], Power[Plus[(-1), Power[Private`x, 2]], 2]], 0], Private`x]", "{{Rule[Private`x, Times[Power[Plus[1, Times[Power[Private`a, Times[1, Power[2, (-1)]]], (-1)]], Times[1, Power[2, (-1)]]], (-1)]]}, {Rule[Private`x, Power[Plus[1, Times[Power[Private`a, Times[1, Power[2, (-1)]]], (-1)]], Times[1, Power[2, (-1)]]]]}, {Rule[Private`x, Times[Power[Plus[1, Power[Private`a, Times[1, Power[2, (-1)]]]], Times[1, Power[2, (-1)]]], (-1)]]}, {Rule[Private`x, Power[Plus[1, Power[Private`a, Times[1, Power[2, (-1)]]]], Times[1, Power[2, (-1)]]]]}}"},
	}},
	{"flowcontrol", "If", []docEx{
		{"str", "x=9", "9"},
		{"str", "If[x+3==12, x*2, x+3]", "18"},
		{"str", "If[x+3==11, x*2, x+3]", "12"},
		{"str", "If[undefined, a, b]", "If[undefined, a, b]"},
		{"str", "t=True", "True"},
		{"str", "t", "True"},
		{"str", "f=False", "False"},
		{"str", "f", "False"},
		{"str", "If[t, True, False]", "True"},
		{"str", "If[f, True, False]", "False"},
		{"str", "If[t, False, True]", "False"},
		{"str", "If[f, False, True]", "True"},
		{"ex", "If[Equal[1, 2], Private`itstrue, Private`itsfalse]", "Private`itsfalse"},
		{"ex", "ReplaceAll[If[Equal[1, 2], Private`itstrue, Private`itsfalse], Rule[2, 1]]", "Private`itsfalse"},
		{"ex", "ReplaceAll[If[Equal[1, Private`k], Private`itstrue, Private`itsfalse], Rule[Private`k, 1]]", "Private`itstrue"},
		{"ex", "If[Equal[1, Private`k], Private`itstrue, Private`itsfalse]", "If[Equal[1, Private`k], Private`itstrue, Private`itsfalse]"},
		{"ex", "If[True, Private`a]", "Private`a"},
		{"ex", "If[False, Private`a]", "Null"},
	}},
	{"flowcontrol", "While", []docEx{
		{"ex", "Set[Private`a, 1]", "1"},
		{"ex", "While[Unequal[Private`a, 5], Set[Private`a, Plus[Private`a, 1]]]", "Null"},
		{"ex", "Private`a", "5"},
	}},
	{"flowcontrol", "CompoundExpression", []docEx{
		{"ex", "CompoundExpression[Set[Private`a, 5], Plus[Private`a, Times[2, (-1)]]]", "3"},
		{"ex", "CompoundExpression[Set[Private`a, 5], Plus[Private`a, Times[2, (-1)]], Null]", "Null"},
	}},
	{"flowcontrol", "Return", []docEx{
		{"ex", "CompoundExpression[SetDelayed[Private`myreturnfunc, CompoundExpression[Return[Private`x], Private`hello]], Private`myreturnfunc]", "Private`x"},
		{"ex", "CompoundExpression[SetDelayed[Private`ret[Pattern[Private`x, Blank[]]], CompoundExpression[Return[Private`x], Private`hello]], Private`ret[3]]", "3"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo, CompoundExpression[Set[Private`i, 1], While[Less[Private`i, 5], CompoundExpression[If[SameQ[Private`i, 3], Return[Private`i]], Set[Private`i, Plus[Private`i, 1]]]]]], Private`myfoo]", "3"},
		{"ex", "Return[3]", "Return[3]"},
		{"ex", "CompoundExpression[SetDelayed[Private`retother, CompoundExpression[Return[], Private`hello]], Private`retother]", "Null"},
	}},
	{"flowcontrol", "Which", []docEx{
		{"ex", "Which[Greater[1, 2], Private`a, Less[1, 2], Private`b]", "Private`b"},
		{"ex", "Which[Greater[2, 2], Private`a, Less[2, 2], Private`b]", "Null"},
		{"ex", "Which[True, Private`a, Private`b]", "Which[True, Private`a, Private`b]"},
		{"ex", "Which[False, Private`a, False, Private`b]", "Null"},
	}},
	{"flowcontrol", "Switch", []docEx{
		{"ex", "Switch[Private`z, Blank[], Private`b, Private`z, Private`c]", "Private`b"},
		{"ex", "Switch[Private`z, Pattern[Private`k, Blank[Symbol]], Private`k]", "Private`k"},
		{"ex", "Switch[Private`z, 1]", "Switch[Private`z, 1]"},
		{"ex", "Switch[Private`z, Private`d, Private`b, Private`l, Private`c]", "Switch[Private`z, Private`d, Private`b, Private`l, Private`c]"},
		{"ex", "Switch[]", "Switch[]"},
		{"ex", "Switch[Private`z]", "Switch[Private`z]"},
	}},
	{"flowcontrol", "With", []docEx{
		{"ex", "With[{Set[Private`x, 2]}, {Private`x, Times[3, Private`x]}]", "{2, 6}"},
		{"ex", "With[{SetDelayed[Private`x, 2], SetDelayed[Private`y, 3]}, {Private`x, Times[3, Private`y]}]", "{2, 9}"},
	}},
	{"flowcontrol", "Do", []docEx{
		{"ex", "Catch[CompoundExpression[Do[If[Greater[Private`a, 6], Throw[Private`a]], {Private`a, 10}], False]]", "7"},
	}},
	{"flowcontrol", "For", []docEx{
		{"ex", "CompoundExpression[For[Set[Private`n, 1], Less[Private`n, 1000], Increment[Private`n], If[And[PrimeQ[Private`n], Greater[Private`n, 7]], Return[]]], Private`n]", "11"},
	}},
	{"list", "List", []docEx{
		{"ex", "{1, 2, Private`a}", "{1, 2, Private`a}"},
	}},
	{"list", "Total", []docEx{
		{"ex", "Total[{1, 2, 3, 4}]", "10"},
		{"ex", "Total[{}]", "0"},
	}},
	{"list", "Mean", []docEx{
		{"ex", "Mean[{5, 6}]", "Times[11, Power[2, (-1)]]"},
	}},
	{"list", "Table", []docEx{
		{"ex", "Table[Private`a, 5]", "{Private`a, Private`a, Private`a, Private`a, Private`a}"},
		{"ex", "Table[Private`i, {Private`i, 5, 10}]", "{5, 6, 7, 8, 9, 10}"},
		{"ex", "Table[Power[Private`n, 2], {Private`n, 1, 10}]", "{1, 4, 9, 16, 25, 36, 49, 64, 81, 100}"},
		{"str", "i", "i"},
		{"ex", "Set[listTableTestState`i, 22]", "22"},
		{"ex", "Table[Private`i, {Private`i, 5, 10}]", "{5, 6, 7, 8, 9, 10}"},
		{"str", "i", "22"},
		{"ex", "Table[Private`x[99], {Private`x[Blank[]], 0, 2}]", "{0, 1, 2}"},
		{"ex", "CompoundExpression[SetDelayed[Private`testn, 5], Null]", "Null"},
		{"ex", "Table[Private`i, {Private`i, Private`testn}]", "{1, 2, 3, 4, 5}"},
	}},
	{"list", "ParallelTable", []docEx{
		{"ex", "ParallelTable[Private`i, {Private`i, 5, 10}]", "{5, 6, 7, 8, 9, 10}"},
	}},
	{"list", "MemberQ", []docEx{
		{"ex", "MemberQ[{1, 2, 3}, 0]", "False"},
		{"ex", "MemberQ[{1, 2, 3}, 1]", "True"},
		{"ex", "MemberQ[{1, 2, 3}, {1}]", "False"},
		{"ex", "MemberQ[{1, 2, 3}, Blank[Integer]]", "True"},
		{"ex", "MemberQ[{1, 2, 3}, Blank[]]", "True"},
		{"ex", "MemberQ[{1, 2, 3}, Blank[Real]]", "False"},
		{"ex", "MemberQ[{1, 2, 3}, Pattern[Private`testmatch, Blank[Integer]]]", "True"},
		{"str", "testmatch", "testmatch"},
		{"ex", "MemberQ[Private`a, Private`a]", "False"},
		{"ex", "MemberQ[Private`a, Blank[]]", "False"},
		{"ex", "MemberQ[{Private`a, Private`b}, Private`c]", "False"},
		{"ex", "MemberQ[{Private`a, Private`b}, Private`a]", "True"},
		{"ex", "MemberQ[{Private`a, Private`b}, BlankNullSequence[]]", "True"},
		{"ex", "MemberQ[{Private`a, Private`b}, BlankSequence[]]", "True"},
		{"ex", "MemberQ[{Private`a, Private`b}, BlankSequence[Integer]]", "False"},
		{"ex", "MemberQ[{Private`a, Private`b}, BlankNullSequence[Integer]]", "False"},
		{"ex", "MemberQ[{Private`a, Private`b}, BlankNullSequence[Symbol]]", "True"},
		{"ex", "MemberQ[{Private`a, Private`b}, BlankSequence[Symbol]]", "True"},
		{"ex", "MemberQ[{Private`a, Private`b, 1}, BlankSequence[Symbol]]", "True"},
		{"ex", "MemberQ[{Private`a, Private`b, 1}, BlankSequence[Integer]]", "True"},
		{"ex", "MemberQ[Private`bar[Private`a, Private`b, Private`c], Private`a]", "True"},
		{"ex", "MemberQ[Private`bar[Private`a, Private`b, Private`c], Private`bar]", "False"},
	}},
	{"list", "Cases", []docEx{
		{"ex", "Cases[{5, 2, 3.5, Private`x, Private`y, 4}, Blank[]]", "{5, 2, 3.5, Private`x, Private`y, 4}"},
		{"ex", "Cases[{5, 2, 3.5, Private`x, Private`y, 4}, Blank[Integer]]", "{5, 2, 4}"},
		{"ex", "Cases[{5, 2, 3.5, Private`x, Private`y, 4}, Blank[Real]]", "{3.5}"},
		{"ex", "Cases[{Power[Private`b, 2], 1, Power[Private`a, Private`c]}, Rule[Power[Blank[], Pattern[Private`e, Blank[]]], Private`e]]", "{2, Private`c}"},
		{"ex", "Cases[Private`bar[Private`a, Private`b, Private`c], Private`a]", "{Private`a}"},
	}},
	{"list", "DeleteCases", []docEx{
		{"ex", "DeleteCases[{5, 2, 3.5, Private`x, Private`y, 4}, Blank[Integer]]", "{3.5, Private`x, Private`y}"},
		{"ex", "DeleteCases[{5, 2, 3.5, Private`x, Private`y, 4}, Blank[Real]]", "{5, 2, Private`x, Private`y, 4}"},
		{"ex", "DeleteCases[Plus[3.5, Private`x, Private`y], Blank[Real]]", "Plus[Private`x, Private`y]"},
	}},
	{"list", "Union", []docEx{
		{"ex", "Union[{Private`b, Private`a, Private`a, Private`b, Private`a}]", "{Private`a, Private`b}"},
		{"ex", "Union[{Private`b, Private`a, Private`a, Private`b, Private`a}, {Private`y, Private`z}]", "{Private`a, Private`b, Private`y, Private`z}"},
		{"ex", "Union[Private`foo[Private`b, Private`a, Private`a, Private`b, Private`a], Private`foo[Private`y, Private`z]]", "Private`foo[Private`a, Private`b, Private`y, Private`z]"},
		{"ex", "Union[Private`foo[Private`b, Private`a, Private`a, Private`b, Private`a], {Private`y, Private`z}]", "Union[Private`foo[Private`b, Private`a, Private`a, Private`b, Private`a], {Private`y, Private`z}]"},
		{"ex", "Union[]", "{}"},
		{"ex", "Union[{Private`b, Private`a, Private`a, Private`b, Private`a}, Private`z]", "Union[{Private`b, Private`a, Private`a, Private`b, Private`a}, Private`z]"},
		{"ex", "Union[{Private`a}]", "{Private`a}"},
		{"ex", "Union[{List}]", "{List}"},
	}},
	{"list", "Complement", []docEx{
		{"ex", "Intersection[{Private`a, Private`b}, {Private`a}]", "{Private`a}"},
		{"ex", "Intersection[{Private`a, Private`b, Private`c}, {Private`a}, {Private`b}]", "{}"},
		{"ex", "Intersection[Private`foo[Private`a], Private`foo[Private`a]]", "Private`foo[Private`a]"},
	}},
	{"list", "Range", []docEx{
		{"ex", "Range[3]", "{1, 2, 3}"},
		{"ex", "Range[2, 5]", "{2, 3, 4, 5}"},
		{"ex", "Range[2, (-5)]", "{}"},
	}},
	{"list", "Part", []docEx{
		{"ex", "Part[{Private`a, Private`b, Private`c, Private`d}, 2]", "Private`b"},
		{"ex", "Set[Private`mat, Table[Table[Times[Private`a, Power[Private`b, 2]], {Private`b, 5}], {Private`a, 5}]]", "{{1, 4, 9, 16, 25}, {2, 8, 18, 32, 50}, {3, 12, 27, 48, 75}, {4, 16, 36, 64, 100}, {5, 20, 45, 80, 125}}"},
		{"ex", "Part[Private`mat, 5, 2]", "20"},
		{"ex", "Part[Private`mat, 5, All]", "{5, 20, 45, 80, 125}"},
		{"ex", "Part[{Private`a}, 2]", "Part[{Private`a}, 2]"},
		{"ex", "Part[Private`foo[Private`a], 0]", "Private`foo"},
		{"ex", "Part[Private`i]", "Private`i"},
		{"ex", "Part[{{1, 2}, {3, 4}, {5, 6}}, All, 2]", "{2, 4, 6}"},
		{"ex", "Part[Private`i]", "Private`i"},
		{"ex", "Part[]", "Part[]"},
		{"ex", "Part[{Private`a, Private`b}, 1.5]", "Part[{Private`a, Private`b}, 1.5]"},
		{"ex", "Part[{Private`a, Private`b}, Private`a, 1.5]", "Part[{Private`a, Private`b}, Private`a, 1.5]"},
		{"ex", "Part[Private`foo[Private`a], 0]", "Private`foo"},
		{"ex", "Set[Private`mat, Table[Table[Times[Private`a, Power[Private`b, 2]], {Private`b, 5}], {Private`a, 5}]]", "{{1, 4, 9, 16, 25}, {2, 8, 18, 32, 50}, {3, 12, 27, 48, 75}, {4, 16, 36, 64, 100}, {5, 20, 45, 80, 125}}"},
		{"ex", "Part[Private`mat, 5, 2]", "20"},
		{"ex", "Part[Private`mat, 5, All]", "{5, 20, 45, 80, 125}"},
		{"ex", "Part[Private`foo[Private`a, Private`b, Private`c], All]", "Private`foo[Private`a, Private`b, Private`c]"},
		{"ex", "Part[1, 5]", "Part[1, 5]"},
		{"ex", "Part[{Private`a}, 1]", "Private`a"},
		{"ex", "Part[{Private`a}, 2]", "Part[{Private`a}, 2]"},
		{"ex", "Part[Part[Private`mat, All], 5]", "{5, 20, 45, 80, 125}"},
		{"ex", "Part[{{1, 2}, {3, 4}}, 2, 1]", "3"},
		{"ex", "Part[{{1, 2}, {3}}, 2, 2]", "Part[{{1, 2}, {3}}, 2, 2]"},
		{"ex", "Part[{{1, 2}, {3, 4}, {5, 6}}, 2, All]", "{3, 4}"},
		{"ex", "Part[Private`mat, All, 5]", "{25, 50, 75, 100, 125}"},
	}},
	{"list", "Take", []docEx{
		{"ex", "Take[{1, 2, 3, 4}, 2]", "{1, 2}"},
		{"ex", "Take[{1, 2, 3, 4, 5}, {2, 4}]", "{2, 3, 4}"},
	}},
	{"list", "Span", []docEx{
		{"ex", "Part[{Private`a, Private`b, Private`c, Private`d}, Span[2, 3]]", "{Private`b, Private`c}"},
		{"ex", "Part[{Private`a, Private`b, Private`c, Private`d}, Span[2, All]]", "{Private`b, Private`c, Private`d}"},
	}},
	{"list", "All", []docEx{
		{"ex", "Set[Private`mat, Table[Table[Times[Private`a, Power[Private`b, 2]], {Private`b, 5}], {Private`a, 5}]]", "{{1, 4, 9, 16, 25}, {2, 8, 18, 32, 50}, {3, 12, 27, 48, 75}, {4, 16, 36, 64, 100}, {5, 20, 45, 80, 125}}"},
		{"ex", "Part[Private`mat, 5, All]", "{5, 20, 45, 80, 125}"},
	}},
	{"list", "Thread", []docEx{
		{"ex", "Thread[Private`f[{Private`x, Private`y, Private`z}]]", "{Private`f[Private`x], Private`f[Private`y], Private`f[Private`z]}"},
		{"ex", "Thread[Private`f[{Private`x, Private`y, Private`z}, Private`b]]", "{Private`f[Private`x, Private`b], Private`f[Private`y, Private`b], Private`f[Private`z, Private`b]}"},
		{"ex", "Thread[Private`f[{Private`x, Private`y, Private`z}, {Private`b}]]", "Private`f[{Private`x, Private`y, Private`z}, {Private`b}]"},
		{"ex", "Thread[Private`f[{{Private`x, Private`y, Private`z}}, {Private`b}]]", "{Private`f[{Private`x, Private`y, Private`z}, Private`b]}"},
		{"ex", "Thread[Private`f[{{Private`x, Private`y, Private`z}}, Private`b]]", "{Private`f[{Private`x, Private`y, Private`z}, Private`b]}"},
		{"ex", "Thread[Private`f[{Private`x, Private`y, Private`z}, Private`b, {Private`a, Private`b, Private`c}]]", "{Private`f[Private`x, Private`b, Private`a], Private`f[Private`y, Private`b, Private`b], Private`f[Private`z, Private`b, Private`c]}"},
		{"ex", "Thread[Private`mypos[{(-1), 4, 5}]]", "{Private`mypos[(-1)], Private`mypos[4], Private`mypos[5]}"},
		{"ex", "Thread[Private`f[Private`a, Private`b, Private`c]]", "Private`f[Private`a, Private`b, Private`c]"},
		{"ex", "Thread[Private`f[{1}]]", "{Private`f[1]}"},
		{"ex", "Thread[{0, 1, 2}]", "{0, 1, 2}"},
		{"ex", "Thread[{{0, 1, 2}, Private`a}]", "{{0, Private`a}, {1, Private`a}, {2, Private`a}}"},
		{"ex", "Thread[Private`a]", "Private`a"},
		{"ex", "Thread[]", "Thread[]"},
	}},
	{"list", "Append", []docEx{
		{"ex", "Append[{Private`a, Private`b}, Private`c]", "{Private`a, Private`b, Private`c}"},
		{"ex", "Append[Private`foo[Private`a, Private`b], Private`c]", "Private`foo[Private`a, Private`b, Private`c]"},
	}},
	{"list", "AppendTo", []docEx{
		{"ex", "CompoundExpression[Set[Private`l, {Private`a, Private`b}], AppendTo[Private`l, Private`c], Private`l]", "{Private`a, Private`b, Private`c}"},
	}},
	{"list", "Prepend", []docEx{
		{"ex", "Prepend[{Private`a, Private`b}, Private`c]", "{Private`c, Private`a, Private`b}"},
		{"ex", "Prepend[Private`foo[Private`a, Private`b], Private`c]", "Private`foo[Private`c, Private`a, Private`b]"},
	}},
	{"list", "PrependTo", []docEx{
		{"ex", "CompoundExpression[Set[Private`l, {Private`a, Private`b}], PrependTo[Private`l, Private`c], Private`l]", "{Private`c, Private`a, Private`b}"},
	}},
	{"list", "DeleteDuplicates", []docEx{
		{"ex", "DeleteDuplicates[{Private`b, Private`a, Private`b}]", "{Private`b, Private`a}"},
		{"ex", "DeleteDuplicates[Private`foo[Private`b, Private`a, Private`b]]", "Private`foo[Private`b, Private`a]"},
		{"ex", "DeleteDuplicates[{}]", "{}"},
		{"ex", "Length[DeleteDuplicates[Range[10000]]]", "10000"},
	}},
	{"list", "Select", []docEx{
		{"ex", "Select[Range[20], OddQ]", "{1, 3, 5, 7, 9, 11, 13, 15, 17, 19}"},
		{"ex", "Select[{1, 2, 3, 4}, Function[True]]", "{1, 2, 3, 4}"},
		{"ex", "Select[{1, 2, 3, 4}, Function[True], 2]", "{1, 2}"},
		{"ex", "Select[{1, 2, 3, 4}, Function[False]]", "{}"},
		{"ex", "Select[{1, 2, 3, 4}, Function[Private`hello]]", "{}"},
		{"ex", "Select[Private`foo[1, 2, 3, 4], Function[EvenQ[Slot[1]]]]", "Private`foo[2, 4]"},
		{"ex", "Select[Private`foo[1, 2, 3, 4]]", "Select[Private`foo[1, 2, 3, 4]]"},
		{"ex", "Select[Private`foo[1, 2, 3, 4], Private`notfunction]", "Private`foo[]"},
		{"ex", "Select[2, EvenQ]", "Select[2, EvenQ]"},
	}},
	{"list", "Scan", []docEx{
		{"ex", "Scan[Function[If[Greater[Slot[1], 5], Return[Slot[1]]]], {1, 6, 9}]", "6"},
		{"ex", "Catch[CompoundExpression[Scan[Function[If[IntegerQ[Slot[1]], Null, Throw[False]]], {Private`a}], True]]", "False"},
		{"ex", "Catch[CompoundExpression[Scan[Function[If[IntegerQ[Slot[1]], Null, Throw[False]]], {1, 2}], True]]", "True"},
		{"ex", "Catch[CompoundExpression[Scan[Function[If[IntegerQ[Slot[1]], Null, Throw[False]]], {1, Private`a}], True]]", "False"},
	}},
	{"list", "Join", []docEx{
		{"ex", "Join[{Private`a}, {Private`b, Private`c}]", "{Private`a, Private`b, Private`c}"},
		{"ex", "Join[]", "{}"},
		{"ex", "Join[Private`foo[Private`a], Private`foo[Private`b, Private`c]]", "Private`foo[Private`a, Private`b, Private`c]"},
	}},
	{"list", "ListQ", []docEx{
		{"ex", "ListQ[{Private`a}]", "True"},
		{"ex", "ListQ[Private`a]", "False"},
		{"ex", "ListQ[{}]", "True"},
	}},
	{"list", "Last", []docEx{
		{"ex", "Last[{1, 5, 6}]", "6"},
		{"ex", "Last[Plus[Private`a, Private`b]]", "Private`b"},
		{"ex", "Last[Private`a]", "Last[Private`a]"},
		{"ex", "Last[{}]", "Last[{}]"},
		{"ex", "Last[{Private`a}]", "Private`a"},
	}},
	{"list", "First", []docEx{
		{"ex", "First[{1, 5, 6}]", "1"},
		{"ex", "First[Plus[Private`a, Private`b]]", "Private`a"},
		{"ex", "First[Private`a]", "First[Private`a]"},
		{"ex", "First[{}]", "First[{}]"},
		{"ex", "First[{Private`a}]", "Private`a"},
	}},
	{"list", "Rest", []docEx{
		{"ex", "Rest[{1, 5, 6}]", "{5, 6}"},
		{"ex", "Rest[Plus[Private`a, Private`b, Private`c]]", "Plus[Private`b, Private`c]"},
		{"ex", "Rest[Private`a]", "Rest[Private`a]"},
		{"ex", "Rest[{}]", "Rest[{}]"},
		{"ex", "Rest[{Private`a}]", "{}"},
	}},
	{"list", "Count", []docEx{
		{"ex", "Count[Plus[Private`a, Private`b, Power[Private`c, 2]], Blank[]]", "3"},
		{"ex", "Count[Plus[Private`a, Private`b, Power[Private`c, 2]], Blank[], (-1)]", "5"},
		{"ex", "Count[Plus[Private`a, Private`b, Power[Private`c, 2]], Blank[], Infinity]", "5"},
		{"ex", "Count[Private`a, Blank[], Infinity]", "0"},
		{"ex", "Count[Private`a, Blank[], (-1)]", "0"},
		{"ex", "Count[Plus[Private`a, 2, Power[Private`c, 2]], Blank[Integer], Infinity]", "2"},
	}},
	{"list", "Tally", []docEx{
		{"ex", "Tally[{Private`a, Private`a, Private`b, Private`b}]", "{{Private`a, 2}, {Private`b, 2}}"},
		{"ex", "Tally[{Private`b, Private`b, Private`a, Private`a}]", "{{Private`b, 2}, {Private`a, 2}}"},
		{"ex", "Tally[{Private`b, Private`b, Private`a}]", "{{Private`b, 2}, {Private`a, 1}}"},
	}},
	{"list", "ConstantArray", []docEx{
		{"ex", "ConstantArray[Private`a, 3]", "{Private`a, Private`a, Private`a}"},
	}},
	{"list", "Reverse", []docEx{
		{"ex", "Reverse[Range[5]]", "{5, 4, 3, 2, 1}"},
	}},
	{"matrix", "Inverse", []docEx{
		{"ex", "Inverse[{{1, 2}, {3, 4}}]", "{{(-2), 1}, {Times[3, Power[2, (-1)]], Times[Times[1, Power[2, (-1)]], (-1)]}}"},
		{"ex", "Inverse[{{3, 2, 1}, {1, 4, 2}, {2, 5, 7}}]", "{{Times[2, Power[5, (-1)]], Times[Times[1, Power[5, (-1)]], (-1)], 0}, {Times[Times[1, Power[15, (-1)]], (-1)], Times[19, Power[45, (-1)]], Times[Times[1, Power[9, (-1)]], (-1)]}, {Times[Times[1, Power[15, (-1)]], (-1)], Times[Times[11, Power[45, (-1)]], (-1)], Times[2, Power[9, (-1)]]}}"},
		{"ex", "{{Times[1, Power[Private`b, (-1)]]}}", "Inverse[{{Private`b}}]"},
	}},
	{"matrix", "Dimensions", []docEx{
		{"ex", "Dimensions[{{1, 3}, {1, 2}}]", "{2, 2}"},
		{"ex", "Dimensions[{{{1, 2}, {3, 2}}, {{1, 2}}}]", "{2}"},
		{"ex", "Dimensions[Private`foo]", "{}"},
		{"ex", "Dimensions[Private`foo[]]", "{0}"},
		{"ex", "Dimensions[{1, 2}]", "{2}"},
		{"ex", "Dimensions[{}]", "{0}"},
		{"ex", "Dimensions[Private`foo[{1}]]", "{1}"},
		{"ex", "Dimensions[{{1}}]", "{1, 1}"},
		{"ex", "Dimensions[{{1}, {1}}]", "{2, 1}"},
		{"ex", "Dimensions[{{1}, {1, 2}}]", "{2}"},
		{"ex", "Dimensions[{{1, 3}, {1, 2}}]", "{2, 2}"},
		{"ex", "Dimensions[{{{1}, {3}}, {{1}, {2}}}]", "{2, 2, 1}"},
		{"ex", "Dimensions[{{{1, 2}, {3, 2}}, {{1, 2}, {2, 2}}}]", "{2, 2, 2}"},
		{"ex", "Dimensions[{{{1, 2}, {3, 2}}, {{1, 2}}}]", "{2}"},
		{"ex", "Dimensions[{{{1, 2}, {3, 2}}, {{1, 2}, {Private`foo, 2}}}]", "{2, 2, 2}"},
		{"ex", "Dimensions[{{{1, 2}, {3, 2}}, {{1, 2}, Private`foo[Private`foo, 2]}}]", "{2, 2}"},
		{"ex", "Dimensions[{{{}, {}}}]", "{1, 2, 0}"},
		{"ex", "Dimensions[{{{}, Private`foo[Private`x]}}]", "{1, 2}"},
	}},
	{"matrix", "VectorQ", []docEx{
		{"ex", "VectorQ[{1, 2, Private`c}]", "True"},
		{"ex", "VectorQ[{1, 2, Private`foo[Private`a]}]", "True"},
		{"ex", "VectorQ[Private`foo[1, 2, 3]]", "False"},
		{"ex", "VectorQ[{1, 2, 3, {}}]", "False"},
		{"ex", "VectorQ[{Private`f[Private`a], Private`f[Private`b]}]", "True"},
		{"ex", "VectorQ[{Private`a, Private`c}]", "True"},
		{"ex", "VectorQ[{}]", "True"},
	}},
	{"matrix", "MatrixQ", []docEx{
		{"ex", "MatrixQ[{}]", "False"},
		{"ex", "MatrixQ[{{}}]", "True"},
		{"ex", "MatrixQ[{{Private`a}}]", "True"},
		{"ex", "MatrixQ[{{{}}}]", "False"},
		{"ex", "MatrixQ[{{{Private`a}}}]", "False"},
		{"ex", "MatrixQ[{{Private`a}, {Private`b}}]", "True"},
		{"ex", "MatrixQ[{{Private`a, Private`b}, {Private`c, Private`d}}]", "True"},
		{"ex", "MatrixQ[{{Private`a, Private`b, Private`e}, {Private`c, Private`d}}]", "False"},
		{"ex", "MatrixQ[{{Private`a, Private`b, Private`e}, {Private`c, Private`d, Private`f}}]", "True"},
		{"ex", "MatrixQ[{{{Private`a}, {Private`b}}, {{Private`c}, {Private`d}}}]", "False"},
		{"ex", "MatrixQ[{{Private`a, Private`b, Private`e}}]", "True"},
	}},
	{"matrix", "Dot", []docEx{
		{"ex", "Dot[{Private`a, Private`b}, {Private`c, Private`d}]", "Plus[Times[Private`a, Private`c], Times[Private`b, Private`d]]"},
		{"ex", "Dot[{Private`a, Private`b}, {Private`c, Private`d, Private`e}]", "Dot[{Private`a, Private`b}, {Private`c, Private`d, Private`e}]"},
		{"ex", "Dot[1, {Private`c, Private`d, Private`e}]", "Dot[1, {Private`c, Private`d, Private`e}]"},
		{"ex", "Dot[{}, {}]", "0"},
		{"ex", "Dot[{{Private`a, Private`b}, {Private`c, Private`d}}, {Private`e, Private`f, Private`g}]", "Dot[{{Private`a, Private`b}, {Private`c, Private`d}}, {Private`e, Private`f, Private`g}]"},
		{"ex", "Dot[{Private`a, Private`b}]", "{Private`a, Private`b}"},
		{"ex", "Dot[Private`a]", "Private`a"},
		{"ex", "Dot[1]", "1"},
		{"ex", "Dot[{{Private`a, Private`b}, {Private`c, Private`d}}, {{Private`e, Private`f}, {Private`g, Private`h}}]", "{{Plus[Times[Private`a, Private`e], Times[Private`b, Private`g]], Plus[Times[Private`a, Private`f], Times[Private`b, Private`h]]}, {Plus[Times[Private`c, Private`e], Times[Private`d, Private`g]], Plus[Times[Private`c, Private`f], Times[Private`d, Private`h]]}}"},
		{"ex", "Dot[{{Private`a, Private`b}, {Private`c, Private`d}}, {{Private`e}, {Private`f}}]", "{{Plus[Times[Private`a, Private`e], Times[Private`b, Private`f]]}, {Plus[Times[Private`c, Private`e], Times[Private`d, Private`f]]}}"},
		{"ex", "Dot[{{Private`a, Private`b}, {Private`c, Private`d}}, {{Private`e, Private`f}}]", "Dot[{{Private`a, Private`b}, {Private`c, Private`d}}, {{Private`e, Private`f}}]"},
	}},
	{"matrix", "Transpose", []docEx{
		{"ex", "Transpose[{Private`a, Private`b}]", "Transpose[{Private`a, Private`b}]"},
		{"ex", "Transpose[{{Private`a}, {Private`b}}]", "{{Private`a, Private`b}}"},
		{"ex", "Transpose[{{Private`a, Private`b}}]", "{{Private`a}, {Private`b}}"},
		{"ex", "Transpose[{{{Private`a}, {Private`b}}}]", "{{{Private`a}}, {{Private`b}}}"},
		{"ex", "Transpose[Private`a]", "Transpose[Private`a]"},
	}},
	{"arithmetic", "Plus", []docEx{
		{"ex", "Plus[1, 1]", "2"},
		{"ex", "Plus[Plus[5.2, Times[0.2, (-1)]], Times[5, (-1)]]", "0."},
		{"ex", "Plus[Private`a, Power[Private`b, 2], Times[5, Power[Private`b, 2]]]", "Plus[Private`a, Times[6, Power[Private`b, 2]]]"},
		{"ex", "Plus[Plus[Private`a, Private`b], Times[Plus[Private`a, Private`b], (-1)], Private`c, Times[Private`c, (-1)], Times[2, Power[Private`c, Private`a]], Times[2, Private`d], Times[5, Private`d], Private`d, Times[Times[5, Private`d], (-1)], Times[3, Power[Private`c, Private`a]]]", "Plus[Times[5, Power[Private`c, Private`a]], Times[3, Private`d]]"},
		{"ex", "Plus[Times[4, Private`a, Private`b, Private`c, Private`d, Private`e, Private`f], Times[(-7), Private`a, Private`b, Private`c, Private`d, Private`e, Private`f]]", "Times[(-3), Private`a, Private`b, Private`c, Private`d, Private`e, Private`f]"},
		{"str", "1*(a + b)", "(a + b)"},
		{"str", "1.*(a + b)", "(1.*(a + b))"},
		{"str", "2.*(a + b)", "(2.*(a + b))"},
		{"str", "(a + b)/1", "(a + b)"},
		{"str", "(a + b)/1.", "(1.*(a + b))"},
		{"str", "2*(a + b)", "(2*(a + b))"},
		{"str", "a*(b + c)", "(a*(b + c))"},
		{"str", "-1*(a + b)", "(-a - b)"},
		{"str", "-(a + b)", "(-a - b)"},
		{"str", "-1.*(a + b)", "((-1.)*(a + b))"},
		{"str", "(a + b)/-1", "(-a - b)"},
		{"str", "(a + b)/-1.", "((-1.)*(a + b))"},
		{"ex", "Plus[Plus[5.2, Times[0.2, (-1)]], Times[5, (-1)]]", "0."},
		{"ex", "Plus[0, 0]", "0"},
		{"ex", "Plus[]", "0"},
		{"str", "Rational[5, 2] + Rational[7, 3] + 3 + sym", "(47/6 + sym)"},
		{"str", "Rational[5, -2] + Rational[7, 3] + 3 + sym", "(17/6 + sym)"},
		{"str", "Rational[5, -2] + Rational[7, 3] - 3 + sym", "(-19/6 + sym)"},
		{"str", "Rational[5, -2] + Rational[-7, 3] - 3 + sym", "(-47/6 + sym)"},
		{"ex", "Plus[Private`a, Times[2, Private`b], Times[5, Private`b]]", "Plus[Private`a, Times[7, Private`b]]"},
		{"ex", "Plus[Private`a, Times[2, Private`b], Times[5, Private`b]]", "Plus[Private`a, Times[7, Private`b]]"},
		{"ex", "Plus[Private`a, Times[2, Power[Private`b, 2]], Times[5, Power[Private`b, 2]]]", "Plus[Private`a, Times[7, Power[Private`b, 2]]]"},
		{"ex", "Plus[Private`a, Times[Times[2, Power[Private`b, 2]], (-1)], Times[5, Power[Private`b, 2]]]", "Plus[Private`a, Times[3, Power[Private`b, 2]]]"},
		{"ex", "Plus[Private`a, Power[Private`b, 2], Times[5, Power[Private`b, 2]]]", "Plus[Private`a, Times[6, Power[Private`b, 2]]]"},
		{"ex", "Plus[Private`a, 0]", "Private`a"},
		{"ex", "Plus[Plus[Private`a, Private`b], 0]", "Plus[Private`a, Private`b]"},
		{"ex", "Plus[Private`a, Times[Private`a, (-1)]]", "0"},
		{"ex", "Plus[Times[Private`a, (-1)], Private`a]", "0"},
		{"ex", "Plus[Plus[Private`a, Private`b], Times[Plus[Private`a, Private`b], (-1)]]", "0"},
		{"ex", "Plus[Times[Plus[Private`a, Private`b], (-1)], Plus[Private`a, Private`b]]", "0"},
		{"ex", "Plus[Plus[Private`a, Private`b], Times[Plus[Private`a, Private`b], (-1)]]", "0"},
		{"ex", "Plus[Times[Plus[Private`a, Private`b], (-1)], Plus[Private`a, Private`b]]", "0"},
		{"ex", "Plus[Plus[Private`a, Private`b], Times[Plus[Private`a, Private`b], (-1)], Private`c, Times[Private`c, (-1)], Private`d]", "Private`d"},
		{"ex", "Plus[Plus[Private`a, Private`b], Times[Plus[Private`a, Private`b], (-1)], Private`c, Times[Private`c, (-1)], Times[2, Power[Private`c, Private`a]], Times[2, Private`d], Times[5, Private`d], Private`d, Times[Times[5, Private`d], (-1)], Times[3, Power[Private`c, Private`a]]]", "Plus[Times[5, Power[Private`c, Private`a]], Times[3, Private`d]]"},
		{"ex", "Plus[Plus[Private`x, 80., 3., Private`x], 2., Private`x, 2.5]", "Plus[87.5, Times[3, Private`x]]"},
		{"ex", "Plus[Plus[Private`x, 80., 3., Private`x], 2., Times[Private`x, 2., 2.], Times[0., 3., Private`x], Private`x, 2.5]", "Plus[87.5, Times[7., Private`x]]"},
		{"ex", "Plus[Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a, Private`a]", "Times[50, Private`a]"},
		{"ex", "Plus[Times[(-9), Private`n], Times[Private`n, (-1)], Times[Times[3, Private`m], (-1)]]", "Plus[Times[(-3), Private`m], Times[Times[10, Private`n], (-1)]]"},
		{"ex", "Plus[Times[3, Private`a, Private`b], Times[Times[2, Private`a, Private`c], (-1)], Times[4, Private`a, Private`b]]", "Plus[Times[7, Private`a, Private`b], Times[Times[2, Private`a, Private`c], (-1)]]"},
		{"ex", "Plus[Times[2, Private`a], Times[Times[4, Private`b], (-1)], Times[3, Private`a, Private`b], Times[Times[5, Private`a], (-1)], Times[2, Private`b]]", "Plus[Times[(-3), Private`a], Times[Times[2, Private`b], (-1)], Times[3, Private`a, Private`b]]"},
		{"ex", "Plus[Times[8, Private`x], Times[Times[9, Private`y], (-1)], Times[Times[3, Private`x, Private`y], (-1)], Times[Times[2, Private`y], (-1)], Times[Private`x, (-1)], Times[4, Private`x, Private`y]]", "Plus[Times[7, Private`x], Times[Times[11, Private`y], (-1)], Times[Private`x, Private`y]]"},
		{"ex", "Plus[Times[4, Private`a, Private`b, Private`c, Private`d, Private`e, Private`f], Times[(-7), Private`a, Private`b, Private`c, Private`d, Private`e, Private`f]]", "Times[(-3), Private`a, Private`b, Private`c, Private`d, Private`e, Private`f]"},
		{"ex", "Plus[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[Private`a, (-1), Private`b, Private`c, Private`d, Private`e, Private`f, 7]]", "Times[(-3), Private`a, Private`b, Private`c, Private`d, Private`e, Private`f]"},
		{"ex", "Plus[Times[Private`a, Private`b, 2, Private`c, 2, Private`d, Private`e, Private`f], Times[Private`a, (-1), Private`b, Private`c, Private`d, Private`e, Private`f, 7]]", "Times[(-3), Private`a, Private`b, Private`c, Private`d, Private`e, Private`f]"},
		{"ex", "Plus[Times[2, Private`r], Times[Times[3, Private`s], (-1)], Times[Private`t, (-1)], Times[3, Private`t], Times[3, Private`s]]", "Plus[Times[2, Private`r], Times[2, Private`t]]"},
		{"ex", "Plus[Times[2, Plus[Times[Private`x, Private`y], Times[1, (-1)]]], Times[3, Plus[Private`x, Times[Times[2, Private`y], (-1)]]], Times[Times[4, Private`x, Private`y], (-1)]]", "Plus[Times[3, Plus[Private`x, Times[Times[2, Private`y], (-1)]]], Times[Times[4, Private`x, Private`y], (-1)], Times[2, Plus[(-1), Times[Private`x, Private`y]]]]"},
		{"ex", "Plus[Times[4, Private`r, Private`s], Times[Times[2, Private`s], (-1)], Times[Times[3, Plus[Times[Private`r, Private`s], 1]], (-1)], Times[Times[2, Private`s], (-1)]]", "Plus[Times[(-4), Private`s], Times[4, Private`r, Private`s], Times[Times[3, Plus[1, Times[Private`r, Private`s]]], (-1)]]"},
		{"ex", "Plus[Times[8, Private`y], Times[Times[2, Private`z], (-1)], Times[Plus[Private`y, Times[Private`z, (-1)]], (-1)], Times[3, Private`y, Private`z]]", "Plus[Times[7, Private`y], Times[Private`z, (-1)], Times[3, Private`y, Private`z]]"},
	}},
	{"arithmetic", "Sum", []docEx{
		{"ex", "Sum[Private`i, {Private`i, 5, 10}]", "45"},
		{"ex", "Sum[Private`i, {Private`i, 1, 10}]", "55"},
		{"ex", "Sum[Private`i, {Private`i, 0, 10}]", "55"},
		{"ex", "Sum[Private`i, {Private`i, 1, 30000}]", "450015000"},
		{"ex", "Sum[Private`i, {Private`i, 0, 30000}]", "450015000"},
		{"ex", "Sum[Private`i, {Private`i, 0, Private`n}]", "Times[1, Power[2, (-1)], Private`n, Plus[1, Private`n]]"},
		{"ex", "Sum[Private`i, {Private`i, 1, Private`n}]", "Times[1, Power[2, (-1)], Private`n, Plus[1, Private`n]]"},
		{"ex", "Sum[Plus[Private`a, Private`b], {Private`a, 0, 2}, {Private`b, 0, 3}]", "30"},
		{"ex", "Sum[Private`a, {Private`a, {Private`b, Private`c, Private`d, Private`e}}]", "Plus[Private`b, Private`c, Private`d, Private`e]"},
		{"ex", "Sum[Times[Private`a, Private`f], {Private`a, {Private`b, Private`c, Private`d, Private`e}}, {Private`f, {Private`g, Private`h}}]", "Plus[Times[Private`b, Private`g], Times[Private`c, Private`g], Times[Private`d, Private`g], Times[Private`e, Private`g], Times[Private`b, Private`h], Times[Private`c, Private`h], Times[Private`d, Private`h], Times[Private`e, Private`h]]"},
		{"ex", "Sum[Private`i, {Private`i, Times[Private`n, 50]}]", "Times[25, Private`n, Plus[1, Times[50, Private`n]]]"},
		{"ex", "Times[Power[Pi, 2], Power[6, (-1)]]", "Sum[Times[1, Power[Power[Private`n, 2], (-1)]], {Private`n, 1, Infinity}]"},
		{"ex", "Times[Power[Pi, 2], Power[6, (-1)]]", "Sum[Power[Private`n, (-2)], {Private`n, 1, Infinity}]"},
		{"ex", "Power[Pi, 2]", "Sum[Times[6, Power[Power[Private`n, 2], (-1)]], {Private`n, 1, Infinity}]"},
	}},
	{"arithmetic", "Times", []docEx{
		{"ex", "Times[Plus[3, Times[Power[Private`x, 2], 0]], Power[2, (-1)]]", "Times[3, Power[2, (-1)]]"},
		{"ex", "Times[Power[Private`a, 2], Power[Private`a, Private`c]]", "Power[Private`a, Plus[2, Private`c]]"},
		{"ex", "Times[Times[Times[Private`a, Power[Private`b, (-1)]], Power[Private`c, (-1)]], Power[Private`d, (-1)]]", "Times[Private`a, Power[Times[Private`b, Private`c, Private`d], (-1)]]"},
		{"ex", "Times[Rational[1, (-2)], Rational[(-2), 3], (-2)]", "Times[(-2), Power[3, (-1)]]"},
		{"ex", "Times[]", "1"},
		{"ex", "Times[1, 1]", "1"},
		{"ex", "Times[5, Times[1, Power[5, (-1)]], 1]", "1"},
		{"ex", "Times[]", "1"},
		{"ex", "Times[50, Power[2, (-1)]]", "25"},
		{"ex", "Times[100, Power[2, (-1)]]", "50"},
		{"ex", "Times[1, Power[2, (-1)], 100]", "50"},
		{"ex", "Times[1, Power[2, (-1)], Times[5, Power[2, (-1)]]]", "Times[5, Power[4, (-1)]]"},
		{"ex", "Times[1, Power[2, (-1)], Times[1, Power[2, (-1)]]]", "Times[1, Power[4, (-1)]]"},
		{"ex", "Times[Times[Times[Private`a, Power[Private`b, (-1)]], Power[Private`c, (-1)]], Power[Private`d, (-1)]]", "Times[Private`a, Power[Times[Private`b, Private`c, Private`d], (-1)]]"},
		{"str", "40/2^2", "10"},
		{"str", "40/4", "10"},
		{"ex", "Times[40, Power[3, (-1)]]", "Times[40, Power[3, (-1)]]"},
		{"ex", "Times[40, Power[6, (-1)]]", "Times[20, Power[3, (-1)]]"},
		{"str", "1/4*40", "10"},
		{"str", "1/(2^2)*40", "10"},
		{"str", "sym*Rational[1,2]*Rational[2,3]*6", "(2*sym)"},
		{"ex", "Times[Rational[1, (-2)], Rational[(-2), 3], (-2)]", "Times[(-2), Power[3, (-1)]]"},
		{"str", "Rational[1, -2]*Rational[-2, 3]*-2 // Head", "Rational"},
		{"str", "5*1", "5"},
		{"str", "1*a", "a"},
		{"str", "1.*a", "(1.*a)"},
		{"str", "8*1/8", "1"},
		{"str", "a*1/a", "1"},
		{"str", "1/a*a", "1"},
		{"ex", "Times[Plus[3, Times[Power[Private`x, 2], 0]], Power[2, (-1)]]", "Times[3, Power[2, (-1)]]"},
		{"ex", "Times[Power[Private`a, 2], Power[Private`a, Private`c]]", "Power[Private`a, Plus[2, Private`c]]"},
		{"ex", "Times[Power[Private`a, 2], Power[Power[Private`a, Private`c], (-1)]]", "Power[Private`a, Plus[2, Times[Private`c, (-1)]]]"},
		{"ex", "Times[Private`m, Private`m]", "Power[Private`m, 2]"},
		{"ex", "Times[Private`m, Power[Private`m, (-1)]]", "1"},
		{"ex", "Times[Power[Private`m, 2], Power[Power[Private`m, 2], (-1)]]", "1"},
		{"ex", "Times[Times[1, Power[2, (-1)]], Private`a, Power[2, Times[1, Power[2, (-1)]]]]", "Times[Power[2, Rational[(-1), 2]], Private`a]"},
		{"ex", "MatchQ[Times[Sqrt[Times[2, Pi]], 0.1], Blank[Real]]", "True"},
		{"ex", "Times[Power[(-2), Times[1, Power[3, (-1)]]], Power[2, Times[(-1), Power[3, (-1)]]], Private`a, Private`b, Private`c]", "Times[Power[(-1), Times[1, Power[3, (-1)]]], Private`a, Private`b, Private`c]"},
		{"ex", "Times[Times[1, Power[12, (-1)]], Power[2, Times[(-2), Power[3, (-1)]]], Power[2, Times[2, Power[3, (-1)]]]]", "Times[1, Power[12, (-1)]]"},
		{"ex", "Times[Plus[0, Times[I, Power[12, (-1)]]], Sqrt[3]]", "Times[I, Power[Times[4, Sqrt[3]], (-1)]]"},
		{"ex", "Times[1, Power[12, (-1)], Sqrt[3]]", "Times[1, Power[Times[4, Sqrt[3]], (-1)]]"},
		{"ex", "Times[Plus[0, Times[Times[I, Power[4, (-1)]], (-1)]], Times[1, Power[Sqrt[3], (-1)]]]", "Times[Times[I, Power[Times[4, Sqrt[3]], (-1)]], (-1)]"},
		{"ex", "Times[Times[(-1), Power[12, (-1)]], Sqrt[3]]", "Times[Times[1, Power[Times[4, Sqrt[3]], (-1)]], (-1)]"},
		{"ex", "Times[Times[(-5), Power[12, (-1)]], Sqrt[3]]", "Times[Times[5, Power[Times[4, Sqrt[3]], (-1)]], (-1)]"},
		{"ex", "Times[Plus[1, Times[1, Power[12, (-1)], I]], Sqrt[3]]", "Times[Plus[3, Times[I, Power[4, (-1)]]], Power[Sqrt[3], (-1)]]"},
		{"ex", "Times[Times[3, Power[12, (-1)], I], Sqrt[3]]", "Times[Times[I, Sqrt[3]], Power[4, (-1)]]"},
		{"ex", "Times[Times[(-2), Power[12, (-1)], I], Sqrt[3]]", "Times[Times[I, Power[Times[2, Sqrt[3]], (-1)]], (-1)]"},
		{"ex", "Times[Times[2, Power[(-12), (-1)], I], Sqrt[3]]", "Times[Times[I, Power[Times[2, Sqrt[3]], (-1)]], (-1)]"},
		{"ex", "Times[Plus[1, Times[5, Power[12, (-1)], I]], Sqrt[3]]", "Times[Plus[3, Times[Times[5, I], Power[4, (-1)]]], Power[Sqrt[3], (-1)]]"},
		{"ex", "Times[Plus[0, Times[1, Power[6, (-1)], I]], Power[3, Times[1, Power[2, (-1)]]], Power[Private`a, (-2)]]", "Times[I, Power[Times[2, Sqrt[3], Power[Private`a, 2]], (-1)]]"},
		{"ex", "Times[Times[1, Power[3, (-1)]], Power[3, Times[(-1), Power[2, (-1)]]]]", "Times[Times[1, Power[3, (-1)]], Power[3, Times[(-1), Power[2, (-1)]]]]"},
		{"ex", "Times[Sqrt[2], Sqrt[Times[1, Power[Pi, (-1)]]]]", "Sqrt[Times[2, Power[Pi, (-1)]]]"},
		{"ex", "Times[Sqrt[Times[3, Power[2, (-1)]]], Sqrt[Times[1, Power[Pi, (-1)]]]]", "Sqrt[Times[3, Power[Times[2, Pi], (-1)]]]"},
	}},
	{"arithmetic", "Product", []docEx{
		{"ex", "Product[Private`a, {Private`a, 1, 5}]", "120"},
		{"ex", "Product[Private`f[Private`a], {Private`a, 1, 5}]", "Times[Private`f[1], Private`f[2], Private`f[3], Private`f[4], Private`f[5]]"},
		{"ex", "Product[Power[Private`a, 2], {Private`a, 4}]", "576"},
		{"ex", "Product[Plus[Private`a, Private`b], {Private`a, 1, 2}, {Private`b, 1, 3}]", "1440"},
	}},
	{"arithmetic", "Abs", []docEx{
		{"ex", "Abs[(-5)]", "5"},
		{"ex", "Abs[5]", "5"},
		{"ex", "Abs[Private`a]", "Abs[Private`a]"},
		{"ex", "Abs[Times[Sin[Private`x], (-1)]]", "Abs[Sin[Private`x]]"},
		{"ex", "Greater[Abs[(-5.2)], 0]", "True"},
		{"ex", "Abs[0]", "0"},
		{"ex", "Abs[Times[Power[Private`x, Private`a], (-1)]]", "Abs[Power[Private`x, Private`a]]"},
		{"ex", "Abs[Times[Power[Private`x, Plus[Private`a, Private`b]], (-1)]]", "Abs[Power[Private`x, Plus[Private`a, Private`b]]]"},
		{"ex", "Abs[Times[1, Power[2, (-1)], Power[E, Times[I, Times[Pi, Power[4, (-1)]]]]]]", "Times[1, Power[2, (-1)]]"},
	}},
	{"arithmetic", "Divide", []docEx{
		{"ex", "Divide[10, 5]", "2"},
	}},
	{"arithmetic", "Increment", []docEx{
		{"ex", "Set[Private`toModify, 3]", "3"},
		{"ex", "Increment[Private`toModify]", "3"},
		{"ex", "Private`toModify", "4"},
	}},
	{"arithmetic", "Decrement", []docEx{
		{"ex", "Set[Private`toModify, 3]", "3"},
		{"ex", "Decrement[Private`toModify]", "3"},
		{"ex", "Private`toModify", "2"},
	}},
	{"arithmetic", "PreIncrement", []docEx{
		{"ex", "Set[Private`toModify, 3]", "3"},
		{"ex", "PreIncrement[Private`toModify]", "4"},
		{"ex", "Private`toModify", "4"},
	}},
	{"arithmetic", "PreDecrement", []docEx{
		{"ex", "Set[Private`toModify, 3]", "3"},
		{"ex", "PreDecrement[Private`toModify]", "2"},
		{"ex", "Private`toModify", "2"},
	}},
	{"arithmetic", "AddTo", []docEx{
		{"ex", "Set[Private`toModify, 3]", "3"},
		{"ex", "AddTo[Private`toModify, 2]", "5"},
		{"ex", "Private`toModify", "5"},
	}},
	{"arithmetic", "SubtractFrom", []docEx{
		{"ex", "Set[Private`toModify, 3]", "3"},
		{"ex", "SubtractFrom[Private`toModify, 2]", "1"},
		{"ex", "Private`toModify", "1"},
	}},
	{"specialsyms", "Infinity", []docEx{
		{"ex", "Plus[Infinity, Times[1, (-1)]]", "Infinity"},
		{"ex", "Plus[Infinity, Times[990999999, (-1)]]", "Infinity"},
		{"ex", "Plus[Infinity, Times[990999999., (-1)]]", "Infinity"},
		{"ex", "Plus[Infinity, Times[Infinity, (-1)]]", "Indeterminate"},
		{"ex", "Times[Infinity, (-1)]", "Times[Infinity, (-1)]"},
		{"ex", "Plus[Times[Infinity, (-1)], 1]", "Times[Infinity, (-1)]"},
		{"ex", "Plus[Times[Infinity, (-1)], 999]", "Times[Infinity, (-1)]"},
		{"ex", "Times[Infinity, (-1), (-1)]", "Infinity"},
		{"ex", "Times[1, Power[Infinity, (-1)]]", "0"},
	}},
	{"specialsyms", "ComplexInfinity", []docEx{
		{"ex", "Power[0, (-1)]", "ComplexInfinity"},
		{"ex", "Times[Private`a, Power[0, (-1)]]", "ComplexInfinity"},
		{"ex", "Times[ComplexInfinity, Private`foo[Private`x]]", "ComplexInfinity"},
		{"ex", "Factorial[(-1)]", "ComplexInfinity"},
	}},
	{"specialsyms", "Indeterminate", []docEx{
		{"ex", "Times[0, Power[0, (-1)]]", "Indeterminate"},
		{"ex", "Plus[Infinity, Times[Infinity, (-1)]]", "Indeterminate"},
		{"ex", "Times[0, Infinity]", "Indeterminate"},
		{"ex", "Times[0, ComplexInfinity]", "Indeterminate"},
		{"ex", "Power[0, 0]", "Indeterminate"},
	}},
	{"power", "Power", []docEx{
		{"ex", "Power[(-5), (-3)]", "Times[(-1), Power[125, (-1)]]"},
		{"str", ".5^-10000.", "1.99506e+3010"},
		{"ex", "Power[Power[Private`m, 2.], 2]", "Power[Private`m, 4.]"},
		{"str", "0^0", "Indeterminate"},
		{"ex", "Power[0, (-1)]", "ComplexInfinity"},
		{"ex", "Power[Plus[Private`x, 1], 1]", "Plus[1, Private`x]"},
		{"str", "0^1", "0"},
		{"str", "0.^1", "0."},
		{"ex", "Times[Power[5, 1], (-1)]", "(-5)"},
		{"ex", "Times[Power[5.5, 1], (-1)]", "(-5.5)"},
		{"ex", "Power[Plus[Private`x, 1], 1.]", "Plus[1, Private`x]"},
		{"str", "0^1.", "0"},
		{"str", "0.^1.", "0."},
		{"ex", "Power[(-5), 1.]", "(-5)"},
		{"ex", "Times[Power[5.5, 1.], (-1)]", "(-5.5)"},
		{"str", "(x+1)^0", "1"},
		{"str", "0^0", "Indeterminate"},
		{"str", "0.^0", "Indeterminate"},
		{"ex", "Times[Power[5, 0], (-1)]", "(-1)"},
		{"str", "(-5)^0", "1"},
		{"str", "(-5.5)^0", "1"},
		{"str", "(x+1)^0.", "1"},
		{"str", "0^0.", "Indeterminate"},
		{"str", "0.^0.", "Indeterminate"},
		{"ex", "Times[Power[5, 0.], (-1)]", "(-1)"},
		{"str", "(-5.5)^0.", "1"},
		{"ex", "Times[Power[5, 0], (-1)]", "(-1)"},
		{"str", "99^0", "1"},
		{"str", "5^3", "125"},
		{"ex", "Power[5, (-3)]", "Times[1, Power[125, (-1)]]"},
		{"ex", "Power[(-5), 3]", "(-125)"},
		{"ex", "Power[(-5), (-3)]", "Times[(-1), Power[125, (-1)]]"},
		{"str", "39^999.", "2.97538e+1589"},
		{"str", "39^-999.", "3.36092e-1590"},
		{"str", ".5^-10000.", "1.99506e+3010"},
		{"str", ".5^-10000", "1.99506e+3010"},
		{"str", "1^1", "1"},
		{"str", "1^2", "1"},
		{"str", "1^0", "1"},
		{"str", "1^-1", "1"},
		{"str", "1^-2", "1"},
		{"str", "1^99999992", "1"},
		{"str", "1^2.", "1."},
		{"str", "1^99999992.", "1."},
		{"str", "1.^30", "1."},
		{"str", "(1.*2*1.)^2", "4."},
		{"ex", "Power[(-1), 1]", "(-1)"},
		{"str", "(-1)^2", "1"},
		{"str", "(-1)^0", "1"},
		{"str", "(-1)^0", "1"},
		{"ex", "Power[(-1), (-1)]", "(-1)"},
		{"str", "(-1)^-2", "1"},
		{"str", "(-1)^99999992", "1"},
		{"str", "(-1.)^30", "1."},
		{"str", "(1.*2*-1.)^2", "4."},
		{"ex", "Power[Times[1., 2, (-1.)], (-1)]", "(-0.5)"},
		{"ex", "Head[Power[2, (-1)]]", "Rational"},
		{"ex", "Head[Power[1, (-1)]]", "Integer"},
		{"ex", "Head[Power[2, 2]]", "Integer"},
		{"ex", "Head[Power[(-2), (-1)]]", "Rational"},
		{"ex", "Head[Power[2, (-2)]]", "Rational"},
		{"ex", "Times[Power[Private`m, 2], Power[Private`m, 2]]", "Power[Private`m, 4]"},
		{"ex", "Power[Power[Private`m, 2], 2]", "Power[Private`m, 4]"},
		{"ex", "Power[Power[Private`m, 2], 2.]", "Power[Power[Private`m, 2], 2.]"},
		{"ex", "Power[Power[Private`m, 2.], 2.]", "Power[Power[Private`m, 2.], 2.]"},
		{"ex", "Power[Power[Private`m, 2.], 2]", "Power[Private`m, 4.]"},
		{"ex", "Power[0, (-1)]", "ComplexInfinity"},
		{"ex", "ReplaceAll[Private`a, Rule[Power[Private`a, Optional[Pattern[Private`p, Blank[]]]], {Private`p}]]", "{1}"},
		{"ex", "Power[2, Times[Infinity, (-1)]]", "0"},
		{"ex", "Power[(-2), Times[Infinity, (-1)]]", "0"},
		{"ex", "Power[(-1), Times[Infinity, (-1)]]", "Indeterminate"},
		{"ex", "Power[1, Times[Infinity, (-1)]]", "Indeterminate"},
		{"ex", "Power[Private`d, Times[Infinity, (-1)]]", "Indeterminate"},
		{"ex", "Power[2, Infinity]", "Infinity"},
		{"ex", "Power[(-2), Infinity]", "ComplexInfinity"},
		{"ex", "Power[(-1), Infinity]", "Indeterminate"},
		{"ex", "Power[1, Infinity]", "Indeterminate"},
		{"ex", "Power[Private`d, Infinity]", "Indeterminate"},
		{"ex", "Power[16, Times[1, Power[4, (-1)]]]", "2"},
		{"ex", "Power[16, Times[1, Power[4., (-1)]]]", "2."},
		{"ex", "UnsameQ[Head[Power[101, Times[1, Power[2, (-1)]]]], Integer]", "True"},
		{"ex", "UnsameQ[Head[Power[99, Times[1, Power[2, (-1)]]]], Integer]", "True"},
		{"ex", "Power[0, Times[1, Power[2, (-1)]]]", "0"},
		{"ex", "Power[2, 3]", "8"},
		{"ex", "Power[0, Times[1, Power[3, (-1)]]]", "0"},
		{"ex", "Power[0, Times[1, Power[4, (-1)]]]", "0"},
		{"ex", "Power[8, Times[1, Power[3, (-1)]]]", "2"},
		{"ex", "Head[Power[7, Times[1, Power[3, (-1)]]]]", "Power"},
		{"ex", "Head[Power[9, Times[1, Power[3, (-1)]]]]", "Power"},
		{"ex", "Power[16, Times[(-1), Power[4, (-1)]]]", "Times[1, Power[2, (-1)]]"},
		{"ex", "Power[0, Times[(-1), Power[3, (-1)]]]", "ComplexInfinity"},
		{"ex", "Power[0, Times[(-1), Power[2, (-1)]]]", "ComplexInfinity"},
		{"ex", "Power[27, Times[(-1), Power[3, (-1)]]]", "Times[1, Power[3, (-1)]]"},
		{"ex", "Head[Power[7, Times[(-1), Power[3, (-1)]]]]", "Power"},
		{"ex", "Head[Power[9, Times[(-1), Power[3, (-1)]]]]", "Power"},
		{"ex", "Power[9, Times[3, Power[2, (-1)]]]", "27"},
		{"ex", "Power[9, Times[(-3), Power[2, (-1)]]]", "Times[1, Power[27, (-1)]]"},
		{"ex", "Power[128, Times[1, Power[3, (-1)]]]", "Times[4, Power[2, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[(-128), Times[1, Power[3, (-1)]]]", "Times[4, Power[(-2), Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[9426375, Times[1, Power[3, (-1)]]]", "Times[15, Power[7, Times[2, Power[3, (-1)]]], Power[57, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[9426375, Times[1, Power[3, (-1)]]]", "Times[15, Power[7, Times[2, Power[3, (-1)]]], Power[57, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[Power[3, 4], Times[1, Power[3, (-1)]]]", "Times[3, Power[3, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[3, Times[4, Power[3, (-1)]]]", "Times[3, Power[3, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Times[Power[3, Times[4, Power[3, (-1)]]], Power[5, Times[3, Power[3, (-1)]]], Power[7, Times[2, Power[3, (-1)]]], Power[19, Times[1, Power[3, (-1)]]]]", "Times[15, Power[7, Times[2, Power[3, (-1)]]], Power[57, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Times[5, Power[3, Times[4, Power[3, (-1)]]], Power[7, Times[2, Power[3, (-1)]]], Power[19, Times[1, Power[3, (-1)]]]]", "Times[15, Power[7, Times[2, Power[3, (-1)]]], Power[57, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[3, Times[4, Power[3, (-1)]]]", "Times[3, Power[3, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[3, Times[4, Power[3, (-1)]]]", "Times[3, Power[3, Times[1, Power[3, (-1)]]]]"},
		{"ex", "Power[Private`a, Times[4, Power[3, (-1)]]]", "Power[Private`a, Times[4, Power[3, (-1)]]]"},
		{"ex", "Power[(-1), Times[4, Power[3, (-1)]]]", "Times[Power[(-1), Times[1, Power[3, (-1)]]], (-1)]"},
		{"ex", "Power[(-1), Times[(-4), Power[3, (-1)]]]", "Power[(-1), Times[2, Power[3, (-1)]]]"},
		{"ex", "Power[(-4), Times[(-1), Power[2, (-1)]]]", "Times[Times[I, Power[2, (-1)]], (-1)]"},
		{"ex", "Power[(-1), Times[(-1), Power[0, (-1)]]]", "Indeterminate"},
		{"ex", "Im[Power[(-1.), 0.5]]", "1."},
	}},
	{"power", "PowerExpand", []docEx{
		{"ex", "PowerExpand[Log[Times[Private`a, Power[Times[Private`b, Power[Private`c, Private`d]], Private`e]]]]", "Plus[Log[Private`a], Times[Private`e, Plus[Log[Private`b], Times[Private`d, Log[Private`c]]]]]"},
		{"ex", "PowerExpand[{Sqrt[Times[Private`a, (-1)]], Sqrt[Power[Private`a, 2]], Sqrt[Times[Private`a, Power[Private`b, (-1)]]]}]", "{Times[I, Sqrt[Private`a]], Private`a, Times[Sqrt[Private`a], Power[Sqrt[Private`b], (-1)]]}"},
	}},
	{"power", "Expand", []docEx{
		{"ex", "Expand[Power[Plus[Private`a, Private`b, Private`c], 3]]", "Plus[Power[Private`a, 3], Times[3, Power[Private`a, 2], Private`b], Times[3, Private`a, Power[Private`b, 2]], Power[Private`b, 3], Times[3, Power[Private`a, 2], Private`c], Times[6, Private`a, Private`b, Private`c], Times[3, Power[Private`b, 2], Private`c], Times[3, Private`a, Power[Private`c, 2]], Times[3, Private`b, Power[Private`c, 2]], Power[Private`c, 3]]"},
		{"ex", "Expand[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d, Private`e]]]", "Plus[Times[Private`a, Private`c], Times[Private`b, Private`c], Times[Private`a, Private`d], Times[Private`b, Private`d], Times[Private`a, Private`e], Times[Private`b, Private`e]]"},
		{"ex", "Expand[Times[Plus[Private`a, Private`b, Private`c], Power[Plus[Private`d, Private`e], 2]]]", "Plus[Times[Private`a, Power[Private`d, 2]], Times[Private`b, Power[Private`d, 2]], Times[Private`c, Power[Private`d, 2]], Times[2, Private`a, Private`d, Private`e], Times[2, Private`b, Private`d, Private`e], Times[2, Private`c, Private`d, Private`e], Times[Private`a, Power[Private`e, 2]], Times[Private`b, Power[Private`e, 2]], Times[Private`c, Power[Private`e, 2]]]"},
		{"ex", "Expand[Power[Plus[Power[Private`a, Private`b], Power[Private`c, Private`d]], 2]]", "Plus[Power[Private`a, Times[2, Private`b]], Times[2, Power[Private`a, Private`b], Power[Private`c, Private`d]], Power[Private`c, Times[2, Private`d]]]"},
		{"ex", "Expand[Times[Plus[Private`a, Private`b, Private`c], Power[Private`d, (-1)]]]", "Plus[Times[Private`a, Power[Private`d, (-1)]], Times[Private`b, Power[Private`d, (-1)]], Times[Private`c, Power[Private`d, (-1)]]]"},
		{"ex", "Expand[Times[Plus[Power[Plus[Private`a, 1], 2], Private`b, Private`c], Power[Private`d, (-1)]]]", "Plus[Times[1, Power[Private`d, (-1)]], Times[Times[2, Private`a], Power[Private`d, (-1)]], Times[Power[Private`a, 2], Power[Private`d, (-1)]], Times[Private`b, Power[Private`d, (-1)]], Times[Private`c, Power[Private`d, (-1)]]]"},
		{"ex", "Expand[Times[2, Plus[Private`a, 1]]]", "Plus[2, Times[2, Private`a]]"},
		{"ex", "CompoundExpression[Plus[Times[60, Private`c, Power[Private`a, 2], Power[Private`b, 2]], Times[30, Private`c, Power[Private`a, 2], Power[Private`b, 2]], Times[30, Private`c, Power[Private`a, 2], Power[Private`b, 2]], Power[Private`a, 5], Power[Private`b, 5], Power[Private`c, 5], Times[5, Private`a, Power[Private`b, 4]], Times[5, Private`a, Power[Private`c, 4]], Times[5, Private`b, Power[Private`a, 4]], Times[5, Private`b, Power[Private`c, 4]], Times[5, Private`c, Power[Private`a, 4]], Times[5, Private`c, Power[Private`b, 4]], Times[10, Power[Private`a, 2], Power[Private`b, 3]], Times[10, Power[Private`a, 2], Power[Private`c, 3]], Times[10, Power[Private`a, 3], Power[Private`b, 2]], Times[10, Power[Private`a, 3], Power[Private`c, 2]], Times[10, Power[Private`b, 2], Power[Private`c, 3]], Times[10, Power[Private`b, 3], Power[Private`c, 2]], Times[20, Private`a, Private`b, Power[Private`c, 3]], Times[20, Private`a, Private`c, Power[Private`b, 3]], Times[20, Private`b, Private`c, Power[Private`a, 3]]], Null]", "Null"},
		{"ex", "Expand[Times[Times[Plus[1, Times[I, Sqrt[3]]], Plus[Times[1, Power[Times[2, Power[2, Times[1, Power[3, (-1)]]]], (-1)]], Times[Times[Times[I, Sqrt[3]], Power[Times[2, Power[2, Times[1, Power[3, (-1)]]]], (-1)]], (-1)]]], Power[Times[3, Power[2, Times[2, Power[3, (-1)]]]], (-1)]]]", "Times[1, Power[3, (-1)]]"},
	}},
	{"power", "ExpandAll", []docEx{
		{"ex", "ExpandAll[Log[Times[Plus[Private`x, 1], Plus[Private`x, Times[1, (-1)]]]]]", "Log[Plus[(-1), Power[Private`x, 2]]]"},
	}},
	{"power", "Log", []docEx{
		{"ex", "Log[E]", "1"},
		{"ex", "Log[Power[E, (-2)]]", "(-2)"},
		{"ex", "Log[2]", "Log[2]"},
	}},
	{"power", "Sqrt", []docEx{
		{"ex", "Sqrt[3]", "Sqrt[3]"},
		{"ex", "Sqrt[(-1)]", "I"},
		{"ex", "Sqrt[(-3)]", "Times[I, Sqrt[3]]"},
		{"ex", "Sqrt[1]", "1"},
		{"ex", "Sqrt[0]", "0"},
		{"ex", "Sqrt[Times[(-2), Plus[Power[Private`x, Private`y], 2]]]", "Times[Sqrt[2], Sqrt[Plus[(-2), Times[Power[Private`x, Private`y], (-1)]]]]"},
	}},
	{"power", "I", []docEx{
		{"ex", "Power[I, 2]", "(-1)"},
		{"ex", "Power[I, 4]", "1"},
	}},
	{"power", "PolynomialQ", []docEx{
		{"ex", "PolynomialQ[Plus[Times[2, Power[Private`x, 2]], Times[Times[3, Private`x], (-1)], 2], Private`x]", "True"},
		{"ex", "PolynomialQ[Times[2, Power[Private`x, 2]], Private`x]", "True"},
		{"ex", "PolynomialQ[Times[2, Power[Private`x, 2.5]], Private`x]", "False"},
		{"ex", "PolynomialQ[Times[2, Power[Private`x, (-2)]], Private`x]", "False"},
		{"ex", "PolynomialQ[Times[2, Power[Private`x, 0]], Private`x]", "True"},
		{"ex", "PolynomialQ[Times[2, Power[Private`x, Private`y]], Private`x]", "False"},
		{"ex", "PolynomialQ[Times[(-3), Private`x], Private`x]", "True"},
		{"ex", "PolynomialQ[2, Private`x]", "True"},
		{"ex", "PolynomialQ[Times[2, Power[Private`y, 2]], Private`x]", "True"},
		{"ex", "PolynomialQ[Times[(-3), Private`y], Private`x]", "True"},
		{"ex", "PolynomialQ[Plus[Times[2, Power[Private`x, 2]], Times[Times[3, Private`x], (-1)], 2, Cos[Private`x]], Private`x]", "False"},
		{"ex", "PolynomialQ[Cos[Private`x], Private`x]", "False"},
		{"ex", "PolynomialQ[Plus[Times[2, Power[Private`x, 2]], Times[Times[3, Private`x], (-1)], Cos[Private`x]], Private`x]", "False"},
		{"ex", "PolynomialQ[Plus[Times[2, Power[Private`x, 2]], Times[Times[Private`x, Cos[Private`x]], (-1)]], Private`x]", "False"},
		{"ex", "PolynomialQ[Plus[Times[2, Power[Private`x, 2]], Times[Times[Private`x, Cos[Private`y]], (-1)]], Private`x]", "True"},
		{"ex", "PolynomialQ[Plus[Times[2.5, Power[Private`x, 2]], Times[Times[3, Private`x], (-1)], 2.5], 2.5]", "True"},
		{"ex", "PolynomialQ[Plus[Times[2, Power[Private`x, 2]], Times[Times[3, Private`x], (-1)], 2], \"hello\"]", "True"},
		{"ex", "PolynomialQ[Plus[Times[2, Power[Private`x, 2]], Times[Times[3, Private`x], (-1)], 2], Private`y]", "True"},
		{"ex", "PolynomialQ[Private`x, Private`y]", "True"},
		{"ex", "PolynomialQ[Private`y, Private`y]", "True"},
		{"ex", "PolynomialQ[Times[2, Private`x], Private`y]", "True"},
		{"ex", "PolynomialQ[Times[2, Power[Private`x, Sin[Private`y]]], Private`x]", "False"},
		{"ex", "PolynomialQ[Times[Sin[Private`y], Power[Private`x, 2]], Private`x]", "True"},
		{"ex", "PolynomialQ[Times[Sin[Private`y], Power[Private`x, 2.5]], Private`x]", "False"},
		{"ex", "PolynomialQ[Times[Sin[Private`y], Power[Private`x, Private`y]], Private`x]", "False"},
		{"ex", "PolynomialQ[Times[2, Private`y], Private`y]", "True"},
		{"ex", "PolynomialQ[Times[Private`y, Private`x], Private`y]", "True"},
		{"ex", "PolynomialQ[Times[Private`y, Private`x], Private`z]", "True"},
		{"ex", "PolynomialQ[Times[Private`y, Sin[Private`x]], Private`z]", "True"},
		{"ex", "PolynomialQ[Power[Private`y, Private`x], Private`y]", "False"},
		{"ex", "PolynomialQ[Power[Private`x, Private`y], Private`y]", "False"},
		{"ex", "PolynomialQ[Power[Private`x, Private`y], Private`z]", "True"},
		{"ex", "PolynomialQ[Times[2.5, Power[Private`x, 2]], 2.5]", "True"},
		{"ex", "PolynomialQ[Times[2.5, Private`x], 2.5]", "True"},
		{"ex", "PolynomialQ[Times[2, Power[Private`x, 2]], 2]", "False"},
		{"ex", "PolynomialQ[Times[2, Private`x], 2]", "True"},
		{"ex", "PolynomialQ[Private`x, 2]", "True"},
		{"ex", "PolynomialQ[Cos[Times[Private`x, Private`y]], Cos[Times[Private`x, Private`y]]]", "True"},
		{"ex", "PolynomialQ[Power[Private`x, 2], 2.]", "True"},
		{"ex", "PolynomialQ[Power[Private`x, Private`a], Private`a]", "False"},
		{"ex", "PolynomialQ[Power[Private`x, Private`n], Private`x]", "False"},
		{"ex", "PolynomialQ[Times[Private`x, (-1), Cos[Private`y]], Private`x]", "True"},
		{"ex", "PolynomialQ[Power[Private`x, Private`y], 1]", "True"},
		{"ex", "PolynomialQ[Expand[Plus[Times[(-280), Power[Private`c, 4], Power[Private`d, 2], Power[Private`x, 2]], Times[(-315), Power[Private`c, 6], Power[Private`d, 2], Power[Private`x, 4]], Times[9, Power[Private`c, 2], Plus[Times[63, Power[Private`d, 2]], Times[90, Power[Private`c, 2], Power[Private`d, 2], Power[Private`x, 2]], Times[35, Power[Private`c, 4], Power[Private`d, 2], Power[Private`x, 4]]]]]], Private`x]", "True"},
		{"ex", "PolynomialQ[Plus[Times[(-280), Power[Private`c, 4], Power[Private`d, 2], Power[Private`x, 2]], Times[(-315), Power[Private`c, 6], Power[Private`d, 2], Power[Private`x, 4]], Times[9, Power[Private`c, 2], Plus[Times[63, Power[Private`d, 2]], Times[90, Power[Private`c, 2], Power[Private`d, 2], Power[Private`x, 2]], Times[35, Power[Private`c, 4], Power[Private`d, 2], Power[Private`x, 4]]]]], Private`x]", "True"},
	}},
	{"power", "Exponent", []docEx{
		{"ex", "Exponent[Plus[3, Power[Private`x, 3], Times[Private`k, Power[Private`x, 5]]], Private`x]", "5"},
		{"ex", "Exponent[Plus[3, Power[Private`x, 3], Times[Private`k, Power[Private`x, 5]]], Private`x, List]", "{0, 3, 5}"},
		{"ex", "Sort[Exponent[Plus[3, \"hello\", Power[Private`x, 3], Times[Private`a, Power[Private`x, 5]], Power[Private`x, Power[Private`x, Private`x]]], Private`x, List]]", "{0, 3, 5, Power[Private`x, Private`x]}"},
		{"ex", "Exponent[Plus[1, Power[Private`x, Power[Private`x, Private`x]]], Power[Private`x, Private`x], List]", "{0}"},
		{"ex", "Exponent[Plus[2, Private`a], Private`x, List]", "{0}"},
		{"ex", "Exponent[Private`a, Private`x, List]", "{0}"},
		{"ex", "Exponent[Power[Private`x, 2], Private`x, List]", "{2}"},
		{"ex", "Exponent[Plus[Power[Private`x, 2], Times[Times[Private`x, Plus[Private`a, Private`x]], (-1)]], Private`x, List]", "{1}"},
		{"ex", "Exponent[Times[Plus[1, Private`x], Power[Plus[3, Private`x], (-1)]], Private`x, List]", "{0, 1}"},
		{"ex", "Exponent[Times[Plus[1, Power[Private`x, 2]], Power[Plus[3, Private`x], (-1)]], Private`x, List]", "{0, 2}"},
		{"ex", "Exponent[Times[Plus[1, Private`x], Power[Plus[3, Power[Private`x, 3]], (-1)]], Private`x, List]", "{0, 1}"},
		{"ex", "Exponent[Power[Plus[3, Power[Private`x, 3]], (-1)], Private`x, List]", "{0}"},
		{"ex", "Exponent[Power[Private`x, (-3)], Private`x, List]", "{(-3)}"},
		{"ex", "Exponent[Times[Private`a, Power[Power[Private`x, 3], (-1)]], Private`x, List]", "{(-3)}"},
		{"ex", "Exponent[Power[Private`x, (-2)], Private`x, List]", "{(-2)}"},
		{"ex", "Exponent[Times[Times[Private`a, Private`x], Power[Plus[3, Power[Private`x, 3]], (-1)]], Private`x, List]", "{1}"},
		{"ex", "Exponent[Plus[1, Times[Private`b, Private`x], Power[Private`x, 2], Times[Times[Times[Private`x, Plus[1, Times[Private`a, Private`x]]], Power[Private`a, (-1)]], (-1)]], Private`x, List]", "{0, 1}"},
		{"ex", "Exponent[Plus[1, Private`x, Power[Private`x, 2], Times[Times[Times[Private`x, Plus[1, Times[2, Private`x]]], Power[2, (-1)]], (-1)]], Private`x, List]", "{0, 1}"},
		{"ex", "Exponent[0, Private`x, List]", "{}"},
		{"ex", "Exponent[0, Plus[Private`x, 2], List]", "{}"},
		{"ex", "Exponent[0, 0, List]", "{}"},
	}},
	{"power", "Coefficient", []docEx{
		{"ex", "Coefficient[Power[Plus[Private`a, Private`b], 3], Times[Private`a, Power[Private`b, 2]]]", "3"},
		{"ex", "Coefficient[Plus[Private`c, Times[Private`j, Private`a], Times[Private`k, Private`b]], Private`a]", "Private`j"},
		{"ex", "Coefficient[Plus[Private`c, Times[Private`k, Private`x], Times[Private`a, Power[Private`x, 3]]], Private`x, 3]", "Private`a"},
		{"ex", "Coefficient[Times[2, Private`b, Plus[Times[2, Private`a], Times[3, Private`b]], Plus[1, Times[2, Private`a], Times[3, Private`b]]], Times[Private`a, Power[Private`b, 2]]]", "24"},
		{"ex", "Coefficient[Plus[Power[Plus[2, Private`x], 2], Power[Plus[5, Private`x], 2]], Private`x, 0]", "29"},
		{"ex", "Coefficient[Plus[Private`a, Private`x], Private`x]", "1"},
		{"ex", "Coefficient[Times[2, Private`b, Plus[Times[2, Private`a], Times[3, Private`b]], Plus[1, Times[2, Private`a], Times[3, Private`b]]], Times[Private`a, Private`b]]", "4"},
		{"ex", "Coefficient[Power[Private`x, 2], Power[Private`x, 2]]", "1"},
		{"ex", "Coefficient[Plus[Power[Private`x, 2], Times[Times[Private`x, Plus[Private`a, Private`x]], (-1)]], Private`x]", "Times[Private`a, (-1)]"},
		{"ex", "Coefficient[Plus[1, Times[Private`b, Private`x], Power[Private`x, 2], Times[Times[Times[Private`x, Plus[1, Times[Private`a, Private`x]]], Power[Private`a, (-1)]], (-1)]], Private`x]", "Plus[Times[Times[1, Power[Private`a, (-1)]], (-1)], Private`b]"},
		{"ex", "Coefficient[Plus[1, Private`x, Power[Private`x, 2], Times[Times[Times[Private`x, Plus[1, Times[2, Private`x]]], Power[2, (-1)]], (-1)]], Private`x]", "Times[1, Power[2, (-1)]]"},
		{"ex", "Coefficient[Private`a, Private`x, 0]", "Private`a"},
		{"ex", "Coefficient[Times[Private`a, Private`b], Private`x, 0]", "Times[Private`a, Private`b]"},
		{"ex", "Coefficient[Plus[Times[Private`a, Private`b], Power[Private`c, Private`d]], Private`x, 0]", "Plus[Times[Private`a, Private`b], Power[Private`c, Private`d]]"},
		{"ex", "Coefficient[Plus[Times[Private`a, Private`b], Power[Private`c, Private`d], Times[5, Private`x]], Private`x, 0]", "Plus[Times[Private`a, Private`b], Power[Private`c, Private`d]]"},
		{"ex", "Coefficient[Plus[Times[Plus[Times[Private`a, Private`b], Power[Private`c, Private`d]], Power[Private`x, 2]], Times[5, Private`x]], Private`x, 0]", "0"},
	}},
	{"power", "CoefficientList", []docEx{
		{"ex", "CoefficientList[Plus[Private`b, Times[3, Private`x], Times[5, Power[Private`x, 2]]], Private`x]", "{Private`b, 3, 5}"},
		{"ex", "CoefficientList[Times[5, Power[Private`x, 2]], Private`x]", "{0, 0, 5}"},
		{"ex", "CoefficientList[Times[Plus[Times[Private`a, (-1)], Private`x], Power[Private`b, (-1)]], Private`x]", "{Times[Times[Private`a, Power[Private`b, (-1)]], (-1)], Times[1, Power[Private`b, (-1)]]}"},
		{"ex", "CoefficientList[Plus[Private`b, Times[3, Private`x], Times[5, Power[Private`x, 3]]], Private`x]", "{Private`b, 3, 0, 5}"},
		{"ex", "CoefficientList[Plus[Private`b, Times[3, Private`x], Times[5, Power[Private`x, 3]]], Private`y]", "{Plus[Private`b, Times[3, Private`x], Times[5, Power[Private`x, 3]]]}"},
		{"ex", "CoefficientList[Plus[Private`b, Times[3, Private`x], Times[5, Power[Private`x, 3]]], Private`b]", "{Plus[Times[3, Private`x], Times[5, Power[Private`x, 3]]], 1}"},
	}},
	{"power", "PolynomialQuotientRemainder", []docEx{
		{"ex", "PolynomialQuotientRemainder[Plus[2, Power[Private`x, 2], Power[Private`x, 3]], Plus[2, Times[2, Private`x]], Private`x]", "{Times[Power[Private`x, 2], Power[2, (-1)]], 2}"},
		{"ex", "PolynomialQuotientRemainder[Power[Private`x, 3], Plus[Private`x, Private`y], Private`x]", "{Plus[Power[Private`x, 2], Times[Times[Private`x, Private`y], (-1)], Power[Private`y, 2]], Times[Power[Private`y, 3], (-1)]}"},
		{"ex", "PolynomialQuotientRemainder[Plus[1, Power[Private`x, 3]], Plus[1, Times[Private`a, Power[Private`x, 2]]], Private`x]", "{Times[Private`x, Power[Private`a, (-1)]], Plus[1, Times[Times[Private`x, Power[Private`a, (-1)]], (-1)]]}"},
		{"ex", "PolynomialQuotientRemainder[Plus[Private`a, Times[Private`b, Private`x]], Private`x, Private`a]", "{Plus[Private`b, Times[Private`a, Power[Private`x, (-1)]]], 0}"},
		{"ex", "PolynomialQuotientRemainder[Plus[Private`a, Times[Private`b, Private`x]], 1, Private`a]", "{Plus[Private`a, Times[Private`b, Private`x]], 0}"},
		{"ex", "PolynomialQuotientRemainder[Plus[Private`a, Times[Private`b, Private`x]], Private`c, Private`a]", "{Plus[Times[Private`a, Power[Private`c, (-1)]], Times[Times[Private`b, Private`x], Power[Private`c, (-1)]]], 0}"},
	}},
	{"power", "PolynomialQuotient", []docEx{
		{"ex", "PolynomialQuotient[Plus[2, Power[Private`x, 2], Power[Private`x, 3]], Plus[2, Times[2, Private`x]], Private`x]", "Times[Power[Private`x, 2], Power[2, (-1)]]"},
		{"ex", "PolynomialQuotient[Power[Private`x, 3], Plus[Private`x, Private`y], Private`x]", "Plus[Power[Private`x, 2], Times[Times[Private`x, Private`y], (-1)], Power[Private`y, 2]]"},
		{"ex", "PolynomialQuotient[Plus[1, Power[Private`x, 3]], Plus[1, Times[Private`a, Power[Private`x, 2]]], Private`x]", "Times[Private`x, Power[Private`a, (-1)]]"},
	}},
	{"power", "PolynomialRemainder", []docEx{
		{"ex", "PolynomialRemainder[Plus[2, Power[Private`x, 2], Power[Private`x, 3]], Plus[2, Times[2, Private`x]], Private`x]", "2"},
		{"ex", "PolynomialRemainder[Power[Private`x, 3], Plus[Private`x, Private`y], Private`x]", "Times[Power[Private`y, 3], (-1)]"},
		{"ex", "PolynomialRemainder[Plus[1, Power[Private`x, 3]], Plus[1, Times[Private`a, Power[Private`x, 2]]], Private`x]", "Plus[1, Times[Times[Private`x, Power[Private`a, (-1)]], (-1)]]"},
	}},
	{"power", "FactorTermsList", []docEx{
		{"ex", "FactorTermsList[Times[2, Sin[Times[8, Private`k]]]]", "{2, Sin[Times[8, Private`k]]}"},
		{"ex", "FactorTermsList[Plus[Times[Private`a, Power[2, (-1)]], Times[Private`x, Power[2, (-1)]]]]", "{Times[1, Power[2, (-1)]], Plus[Private`a, Private`x]}"},
		{"ex", "FactorTermsList[Plus[Private`a, Private`x]]", "{1, Plus[Private`a, Private`x]}"},
		{"ex", "FactorTermsList[1]", "{1, 1}"},
		{"ex", "FactorTermsList[5]", "{5, 1}"},
		{"ex", "FactorTermsList[5.]", "{5., 1}"},
		{"ex", "FactorTermsList[Private`a]", "{1, Private`a}"},
		{"ex", "FactorTermsList[Times[Private`a, Power[2, (-1)]]]", "{Times[1, Power[2, (-1)]], Private`a}"},
		{"ex", "FactorTermsList[Times[Times[(-3), Private`x], Power[2, (-1)]]]", "{Times[Times[3, Power[2, (-1)]], (-1)], Private`x}"},
		{"ex", "FactorTermsList[Plus[Times[2, Private`a], Times[2, Private`x]]]", "{2, Plus[Private`a, Private`x]}"},
		{"ex", "FactorTermsList[Times[Plus[Times[Private`a, Power[2, (-1)]], Times[Private`x, Power[2, (-1)]]], Power[Plus[Times[2, Private`b], Times[2, Private`c]], (-1)]]]", "{Times[1, Power[2, (-1)]], Plus[Times[Private`a, Power[Plus[Times[2, Private`b], Times[2, Private`c]], (-1)]], Times[Private`x, Power[Plus[Times[2, Private`b], Times[2, Private`c]], (-1)]]]}"},
		{"ex", "FactorTermsList[Times[Plus[8, Times[4, Power[Private`x, 2]]], Power[4, (-1)]]]", "{1, Plus[2, Power[Private`x, 2]]}"},
		{"ex", "FactorTermsList[Times[Plus[(-4), Times[Times[6, Private`x], (-1)], Times[Times[2, Power[Private`x, 2]], (-1)]], Power[4, (-1)]]]", "{Times[Times[1, Power[2, (-1)]], (-1)], Plus[2, Times[3, Private`x], Power[Private`x, 2]]}"},
		{"ex", "FactorTermsList[Times[Plus[2, Times[Times[3, Private`x], (-1)], Times[Power[Private`x, 2], (-1)]], Power[2, (-1)]]]", "{Times[Times[1, Power[2, (-1)]], (-1)], Plus[(-2), Times[3, Private`x], Power[Private`x, 2]]}"},
		{"ex", "FactorTermsList[Times[Plus[2, Times[3, Private`x], Times[Power[Private`x, 2], (-1)]], Power[2, (-1)]]]", "{Times[Times[1, Power[2, (-1)]], (-1)], Plus[(-2), Times[Times[3, Private`x], (-1)], Power[Private`x, 2]]}"},
		{"ex", "FactorTermsList[Times[Plus[2, Times[3, Private`x], Power[Private`x, 2]], Power[2, (-1)]]]", "{Times[1, Power[2, (-1)]], Plus[2, Times[3, Private`x], Power[Private`x, 2]]}"},
		{"ex", "FactorTermsList[Times[Plus[(-2), Times[Times[3, Private`x], (-1)], Power[Private`x, 2]], Power[2, (-1)]]]", "{Times[1, Power[2, (-1)]], Plus[(-2), Times[Times[3, Private`x], (-1)], Power[Private`x, 2]]}"},
		{"ex", "FactorTermsList[Times[5, Plus[1, Private`x], Plus[2, Private`x]]]", "{5, Plus[2, Times[3, Private`x], Power[Private`x, 2]]}"},
		{"ex", "FactorTermsList[Times[5, Power[Plus[2, Times[2, Private`x]], 3]]]", "{40, Plus[1, Times[3, Private`x], Times[3, Power[Private`x, 2]], Power[Private`x, 3]]}"},
		{"ex", "FactorTermsList[Times[Plus[(-12), Times[Times[12, Private`x], (-1)]], Power[2, (-1)]]]", "{(-6), Plus[1, Private`x]}"},
		{"ex", "FactorTermsList[Times[Plus[18, Times[6, Private`x]], Power[9, (-1)]]]", "{Times[2, Power[3, (-1)]], Plus[3, Private`x]}"},
		{"ex", "FactorTermsList[Times[Plus[Times[(-2800301), Power[538756, (-1)]], Times[Times[2800301, Private`x], Power[269378, (-1)]], Times[Times[Times[2800301, Power[Private`x, 3]], Power[538756, (-1)]], (-1)]], Power[125, (-1)]]]", "{Times[Times[2800301, Power[67344500, (-1)]], (-1)], Plus[1, Times[Times[2, Private`x], (-1)], Power[Private`x, 3]]}"},
	}},
	{"power", "FactorTerms", []docEx{
		{"ex", "FactorTerms[Times[2, Sin[Times[8, Private`k]]]]", "Times[2, Sin[Times[8, Private`k]]]"},
		{"ex", "FactorTerms[Plus[Times[Private`a, Power[2, (-1)]], Times[Private`x, Power[2, (-1)]]]]", "Times[Times[1, Power[2, (-1)]], Plus[Private`a, Private`x]]"},
		{"ex", "FactorTerms[Plus[Private`a, Private`x]]", "Plus[Private`a, Private`x]"},
	}},
	{"power", "Variables", []docEx{
		{"ex", "Variables[Plus[Private`x, Private`y, Power[Private`y, 2]]]", "{Private`x, Private`y}"},
		{"ex", "Variables[Plus[Power[Private`w, Private`w], Power[Private`x, Private`y], Private`z]]", "{Power[Private`w, Private`w], Power[Private`x, Private`y], Private`z}"},
		{"ex", "Variables[Times[Power[Private`a, 2], Power[Private`b, Plus[Times[2, Private`c], Times[2, Private`d]]]]]", "{Private`a, Power[Private`b, Private`c], Power[Private`b, Private`d]}"},
		{"ex", "Variables[Times[Private`x, Private`y]]", "{Private`x, Private`y}"},
		{"ex", "Variables[Plus[Private`x, Private`y]]", "{Private`x, Private`y}"},
		{"ex", "Variables[Plus[Private`x, Private`y, Power[Private`y, 2.5]]]", "{Private`x, Private`y, Power[Private`y, 2.5]}"},
		{"ex", "Variables[Power[Private`y, 2]]", "{Private`y}"},
		{"ex", "Variables[Power[Private`x, Private`y]]", "{Power[Private`x, Private`y]}"},
		{"ex", "Variables[Plus[Power[Private`x, Private`y], Power[Private`y, Private`x]]]", "{Power[Private`x, Private`y], Power[Private`y, Private`x]}"},
		{"ex", "Variables[Plus[Power[Private`x, Private`y], Private`z]]", "{Power[Private`x, Private`y], Private`z}"},
		{"ex", "Variables[Plus[Power[Private`w, 2], Power[Private`x, Private`y], Private`z]]", "{Private`w, Power[Private`x, Private`y], Private`z}"},
		{"ex", "Variables[Power[2, Plus[Private`x, Private`y]]]", "{}"},
		{"ex", "Variables[Power[2, Private`x]]", "{}"},
		{"ex", "Variables[Private`foo[]]", "{}"},
		{"ex", "Variables[Private`foo[Private`x]]", "{Private`foo[Private`x]}"},
		{"ex", "Variables[Private`foo[Private`x, Private`y]]", "{Private`foo[Private`x, Private`y]}"},
		{"ex", "Variables[Private`foo[2]]", "{Private`foo[2]}"},
		{"ex", "Variables[Sin[2]]", "{}"},
		{"ex", "Variables[Sin[Private`x]]", "{Sin[Private`x]}"},
		{"ex", "Variables[1]", "{}"},
		{"ex", "Variables[{Private`x}]", "{Private`x}"},
		{"ex", "Variables[{1}]", "{}"},
		{"ex", "Variables[Private`x]", "{Private`x}"},
		{"ex", "Variables[Plus[Private`a, Power[Plus[Private`a, Private`b], 2], Times[Private`x, Power[Private`y, 3]], Times[2, Private`z]]]", "{Private`a, Private`b, Private`x, Private`y, Private`z}"},
		{"ex", "Variables[Power[Plus[Private`a, Private`b], 2]]", "{Private`a, Private`b}"},
		{"ex", "Variables[Power[Plus[Private`a, Times[2, Private`b]], 2]]", "{Private`a, Private`b}"},
		{"ex", "Variables[Power[Plus[Private`a, Power[Private`b, Plus[Private`c, Private`d]]], 2]]", "{Private`a, Power[Private`b, Private`c], Power[Private`b, Private`d]}"},
		{"ex", "Variables[Plus[Private`a, Power[Private`b, Plus[Private`c, Private`d]]]]", "{Private`a, Power[Private`b, Private`c], Power[Private`b, Private`d]}"},
		{"ex", "Variables[Power[Times[Private`a, Power[Private`b, Plus[Private`c, Private`d]]], Private`e]]", "{Power[Times[Private`a, Power[Private`b, Plus[Private`c, Private`d]]], Private`e]}"},
		{"ex", "Variables[Power[Plus[Private`a, Private`b], Private`c]]", "{Power[Plus[Private`a, Private`b], Private`c]}"},
		{"ex", "Variables[Power[Plus[Private`a, Private`b], Plus[Private`c, Private`d]]]", "{Power[Plus[Private`a, Private`b], Private`c], Power[Plus[Private`a, Private`b], Private`d]}"},
		{"ex", "Variables[Power[2, Plus[Private`c, Private`d]]]", "{}"},
		{"ex", "Variables[Log[Private`b]]", "{Log[Private`b]}"},
		{"ex", "Variables[Power[Private`a, Plus[Private`b, Private`c]]]", "{Power[Private`a, Private`b], Power[Private`a, Private`c]}"},
		{"ex", "Variables[Power[Private`b, Plus[Times[2, Private`c], Times[2, Private`d]]]]", "{Power[Private`b, Private`c], Power[Private`b, Private`d]}"},
		{"ex", "Variables[Power[Private`b, Times[2, Private`c, Private`d]]]", "{Power[Private`b, Times[Private`c, Private`d]]}"},
		{"ex", "Variables[Power[Private`b, Times[Private`c, Private`d]]]", "{Power[Private`b, Times[Private`c, Private`d]]}"},
		{"ex", "Variables[Power[Private`b, Times[2.5, Private`c, Private`d]]]", "{Power[Private`b, Times[2.5, Private`c, Private`d]]}"},
		{"ex", "Variables[Power[Plus[Private`a, Private`b], 2.5]]", "{Power[Plus[Private`a, Private`b], 2.5]}"},
		{"ex", "Variables[Power[Plus[Private`a, Private`b], Times[2.5, Private`a]]]", "{Power[Plus[Private`a, Private`b], Times[2.5, Private`a]]}"},
		{"ex", "Variables[Power[Plus[Private`a, Private`b], Plus[2.5, Private`a]]]", "{Power[Plus[Private`a, Private`b], 2.5], Power[Plus[Private`a, Private`b], Private`a]}"},
		{"ex", "Variables[5.656854249492381]", "{}"},
		{"ex", "Variables[{}]", "{}"},
		{"ex", "Variables[Power[Private`a, \"Hello\"]]", "{Power[Private`a, \"Hello\"]}"},
		{"ex", "Variables[Power[2, \"Hello\"]]", "{}"},
		{"ex", "Variables[Power[2, Power[\"Hello\", 2]]]", "{}"},
		{"ex", "Variables[Power[Private`a, Power[\"Hello\", 2]]]", "{Power[Private`a, Power[\"Hello\", 2]]}"},
		{"ex", "Variables[Power[Pi, Private`y]]", "{}"},
		{"ex", "Variables[Plus[Sqrt[Private`a], Log[Private`b]]]", "{Private`a, Log[Private`b]}"},
		{"ex", "Variables[Sqrt[Private`a]]", "{Private`a}"},
	}},
	{"power", "PolynomialGCD", []docEx{
		{"ex", "PolynomialGCD[Plus[15, Times[13, Private`a], Times[2, Power[Private`a, 2]]], Plus[10, Times[7, Private`a], Power[Private`a, 2]]]", "Plus[5, Private`a]"},
		{"ex", "PolynomialGCD[Plus[15, Times[13, Private`a], Times[5, Power[Private`a, 2]], Times[2, Power[Private`a, 3]]], Plus[10, Times[7, Private`a], Times[3, Power[Private`a, 2]], Power[Private`a, 3]]]", "Plus[5, Private`a, Power[Private`a, 2]]"},
		{"ex", "PolynomialGCD[Plus[15, Times[13, Private`a], Times[Power[Private`a, 2], (-1)], Times[Times[2, Power[Private`a, 3]], (-1)]], Plus[5, Private`a, Times[Power[Private`a, 2], (-1)]]]", "Plus[(-5), Times[Private`a, (-1)], Power[Private`a, 2]]"},
	}},
	{"power", "SquareFreeQ", []docEx{
		{"ex", "SquareFreeQ[Expand[Times[Plus[Private`x, 1], Power[Plus[Private`x, 2], 2]]]]", "False"},
		{"ex", "SquareFreeQ[Times[Plus[Private`x, 1], Plus[Private`x, 2]]]", "True"},
		{"ex", "SquareFreeQ[Expand[Times[Plus[Times[2, Private`x], 3], Plus[Private`x, 2]]]]", "True"},
		{"ex", "SquareFreeQ[Power[Plus[Times[2, Private`x], 3], 2]]", "False"},
	}},
	{"power", "PSimplify", []docEx{
		{"ex", "PSimplify[Times[Plus[1, Times[Times[2, Power[Private`x, 2]], (-1)], Power[Private`x, 4]], Power[Plus[(-1), Power[Private`x, 2]], (-1)]]]", "Plus[(-1), Power[Private`x, 2]]"},
		{"ex", "PSimplify[Times[Plus[Times[(-4), Private`x], Times[4, Power[Private`x, 3]]], Power[Plus[(-1), Power[Private`x, 2]], (-1)]]]", "Times[4, Private`x]"},
		{"ex", "PSimplify[Times[Plus[1, Times[Power[Private`x, 2], (-1)], Times[Power[Private`x, 3], (-1)], Power[Private`x, 5]], Power[Plus[(-1), Private`x], (-1)]]]", "Plus[(-1), Times[Private`x, (-1)], Power[Private`x, 3], Power[Private`x, 4]]"},
		{"ex", "PSimplify[Times[Plus[Times[(-2), Private`x], Times[Times[3, Power[Private`x, 2]], (-1)], Times[5, Power[Private`x, 4]]], Power[Plus[(-1), Private`x], (-1)]]]", "Plus[Times[2, Private`x], Times[5, Power[Private`x, 2]], Times[5, Power[Private`x, 3]]]"},
		{"ex", "PSimplify[Times[Plus[18, Times[Times[39, Private`x], (-1)], Times[29, Power[Private`x, 2]], Times[Times[9, Power[Private`x, 3]], (-1)], Power[Private`x, 4]], Power[Plus[(-3), Private`x], (-1)]]]", "Plus[(-6), Times[11, Private`x], Times[Times[6, Power[Private`x, 2]], (-1)], Power[Private`x, 3]]"},
		{"ex", "PSimplify[Times[Plus[(-39), Times[58, Private`x], Times[Times[27, Power[Private`x, 2]], (-1)], Times[4, Power[Private`x, 3]]], Power[Plus[(-3), Private`x], (-1)]]]", "Plus[13, Times[Times[15, Private`x], (-1)], Times[4, Power[Private`x, 2]]]"},
		{"ex", "PSimplify[Times[Plus[(-9), Times[Times[6, Private`x], (-1)], Times[8, Power[Private`x, 2]], Times[6, Power[Private`x, 3]], Power[Private`x, 4]], Power[Plus[3, Private`x], (-1)]]]", "Plus[(-3), Times[Private`x, (-1)], Times[3, Power[Private`x, 2]], Power[Private`x, 3]]"},
		{"ex", "PSimplify[Times[Plus[(-6), Times[16, Private`x], Times[18, Power[Private`x, 2]], Times[4, Power[Private`x, 3]]], Power[Plus[3, Private`x], (-1)]]]", "Plus[(-2), Times[6, Private`x], Times[4, Power[Private`x, 2]]]"},
		{"ex", "PSimplify[Times[Plus[(-108), Times[Times[108, Private`x], (-1)], Times[207, Power[Private`x, 2]], Times[239, Power[Private`x, 3]], Times[Times[81, Power[Private`x, 4]], (-1)], Times[Times[153, Power[Private`x, 5]], (-1)], Times[Times[27, Power[Private`x, 6]], (-1)], Times[21, Power[Private`x, 7]], Times[9, Power[Private`x, 8]], Power[Private`x, 9]], Power[Plus[(-9), Times[Times[6, Private`x], (-1)], Times[8, Power[Private`x, 2]], Times[6, Power[Private`x, 3]], Power[Private`x, 4]], (-1)]]]", "Plus[12, Times[4, Private`x], Times[Times[15, Power[Private`x, 2]], (-1)], Times[Times[5, Power[Private`x, 3]], (-1)], Times[3, Power[Private`x, 4]], Power[Private`x, 5]]"},
		{"ex", "PSimplify[Times[Plus[(-108), Times[414, Private`x], Times[717, Power[Private`x, 2]], Times[Times[324, Power[Private`x, 3]], (-1)], Times[Times[765, Power[Private`x, 4]], (-1)], Times[Times[162, Power[Private`x, 5]], (-1)], Times[147, Power[Private`x, 6]], Times[72, Power[Private`x, 7]], Times[9, Power[Private`x, 8]]], Power[Plus[(-9), Times[Times[6, Private`x], (-1)], Times[8, Power[Private`x, 2]], Times[6, Power[Private`x, 3]], Power[Private`x, 4]], (-1)]]]", "Plus[12, Times[Times[54, Private`x], (-1)], Times[Times[33, Power[Private`x, 2]], (-1)], Times[18, Power[Private`x, 3]], Times[9, Power[Private`x, 4]]]"},
	}},
	{"power", "FactorSquareFree", []docEx{
		{"ex", "FactorSquareFree[Plus[1, Times[Times[2, Power[Private`x, 2]], (-1)], Power[Private`x, 4]]]", "Power[Plus[(-1), Power[Private`x, 2]], 2]"},
		{"ex", "FactorSquareFree[Plus[1, Times[Power[Private`x, 2], (-1)], Times[Power[Private`x, 3], (-1)], Power[Private`x, 5]]]", "Times[Power[Plus[(-1), Private`x], 2], Plus[1, Times[2, Private`x], Times[2, Power[Private`x, 2]], Power[Private`x, 3]]]"},
		{"ex", "FactorSquareFree[Plus[18, Times[Times[39, Private`x], (-1)], Times[29, Power[Private`x, 2]], Times[Times[9, Power[Private`x, 3]], (-1)], Power[Private`x, 4]]]", "Times[Power[Plus[(-3), Private`x], 2], Plus[2, Times[Times[3, Private`x], (-1)], Power[Private`x, 2]]]"},
		{"ex", "FactorSquareFree[Plus[(-108), Times[Times[108, Private`x], (-1)], Times[207, Power[Private`x, 2]], Times[239, Power[Private`x, 3]], Times[Times[81, Power[Private`x, 4]], (-1)], Times[Times[153, Power[Private`x, 5]], (-1)], Times[Times[27, Power[Private`x, 6]], (-1)], Times[21, Power[Private`x, 7]], Times[9, Power[Private`x, 8]], Power[Private`x, 9]]]", "Times[Power[Plus[3, Private`x], 3], Plus[(-4), Power[Private`x, 2]], Power[Plus[(-1), Power[Private`x, 2]], 2]]"},
		{"ex", "FactorSquareFree[Plus[Times[Private`a, Private`b], Times[Private`a, Private`c]]]", "Times[Private`a, Plus[Private`b, Private`c]]"},
	}},
	{"power", "Factor", []docEx{
		{"ex", "Factor[Private`a]", "Private`a"},
	}},
	{"power", "Arg", []docEx{
		{"ex", "Arg[Times[1, Power[2, (-1)], Power[E, Times[I, Times[Pi, Power[4, (-1)]]]]]]", "Times[Pi, Power[4, (-1)]]"},
	}},
	{"power", "ComplexExpand", []docEx{
		{"ex", "ComplexExpand[Private`a]", "Private`a"},
		{"ex", "ComplexExpand[1]", "1"},
		{"ex", "ComplexExpand[Times[Private`a, Plus[Private`b, Private`c]]]", "Plus[Times[Private`a, Private`b], Times[Private`a, Private`c]]"},
		{"ex", "ComplexExpand[Power[(-1), Times[1, Power[3, (-1)]]]]", "Plus[Times[1, Power[2, (-1)]], Times[Times[I, Sqrt[3]], Power[2, (-1)]]]"},
		{"ex", "ComplexExpand[Power[(-1), Times[4, Power[3, (-1)]]]]", "Plus[Times[Times[1, Power[2, (-1)]], (-1)], Times[Times[Times[I, Sqrt[3]], Power[2, (-1)]], (-1)]]"},
		{"ex", "ComplexExpand[Power[2, Times[4, Power[3, (-1)]]]]", "Times[2, Power[2, Times[1, Power[3, (-1)]]]]"},
		{"ex", "ComplexExpand[Times[Power[(-1), Times[1, Power[3, (-1)]]], Plus[1, Times[I, Sqrt[3]]]]]", "Plus[(-1), Times[I, Sqrt[3]]]"},
		{"ex", "ComplexExpand[Times[Private`d, Power[E, Times[Plus[Private`a, Times[I, Private`b]], Private`c]]]]", "Plus[Times[Private`d, Power[E, Times[Private`a, Private`c]], Cos[Times[Private`b, Private`c]]], Times[Private`d, I, Power[E, Times[Private`a, Private`c]], Sin[Times[Private`b, Private`c]]]]"},
		{"ex", "ComplexExpand[Times[1, Power[2, (-1)], Power[E, Times[I, Times[Pi, Power[4, (-1)]]]]]]", "Times[Plus[Times[1, Power[2, (-1)]], Times[I, Power[2, (-1)]]], Power[Sqrt[2], (-1)]]"},
	}},
	{"power", "Exp", []docEx{
		{"ex", "True", "Simplify[Equal[Times[Exp[Private`x], Exp[Private`y]], Exp[Plus[Private`x, Private`y]]]]"},
	}},
	{"power", "Conjugate", []docEx{
		{"ex", "Conjugate[Plus[4, Times[4, I]]]", "Plus[4, Times[Times[4, I], (-1)]]"},
		{"ex", "Conjugate[Times[4, I]]", "Times[(-4), I]"},
		{"ex", "Conjugate[4]", "4"},
	}},
	{"random", "RandomReal", []docEx{}},
	{"random", "SeedRandom", []docEx{}},
	{"replacement", "ReplaceAll", []docEx{
		{"ex", "ReplaceAll[Plus[Power[2, Plus[Power[Private`x, 2], 1]], Power[Private`x, 2]], Rule[Power[Private`x, 2], Private`y]]", "Plus[Power[2, Plus[Private`y, 1]], Private`y]"},
		{"ex", "ReplaceAll[Plus[Power[2, Plus[Power[Private`x, 2], 1]], Power[Private`x, 2]], Rule[Power[Private`z, 2], Private`y]]", "Plus[Power[2, Plus[Power[Private`x, 2], 1]], Power[Private`x, 2]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Power[Private`c, 2]], Rule[Plus[Power[Private`c, 2], Private`a], Private`d]]", "Plus[Private`b, Private`c, Private`d]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Pattern[Private`x, Blank[Symbol]], Pattern[Private`y, Blank[Symbol]]], Power[Private`x, Private`y]]]", "Plus[Power[Private`a, Private`b], Private`c, Private`d]"},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[5, Private`c]], Rule[Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]], Times[99, Private`a]]]", "Plus[Private`a, Times[99, Private`b], Times[99, Private`c]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Private`a, Pattern[Private`amatch, BlankNullSequence[]]], Private`foo[Private`amatch]]]", "Private`foo[Private`b, Private`c, Private`d]"},
		{"ex", "ReplaceAll[Plus[Private`x, 2][5, 6], Rule[Plus[2, Private`x], Plus]]", "11"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d], Rule[Blank[Symbol], 2]]", "2[2, 2, 2, 2]"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c], Rule[Plus[Private`c, Private`a], Private`d]]", "Times[Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c], Rule[Times[Private`c, Private`a], Private`d]]", "Times[Private`b, Private`d]"},
		{"ex", "ReplaceAll[Plus[Times[2, Private`a], Private`b, Private`c, Power[Private`c, 2]], Rule[Plus[Power[Private`c, 2], Private`a], Private`d]]", "Plus[Times[2, Private`a], Private`b, Private`c, Power[Private`c, 2]]"},
		{"ex", "ReplaceAll[Plus[Power[Private`a, 2], Private`a, Private`b, Private`c, Power[Private`c, 2]], Rule[Plus[Power[Private`c, 2], Private`a], Private`d]]", "Plus[Power[Private`a, 2], Private`b, Private`c, Private`d]"},
		{"ex", "Plus[Times[Private`a, Private`b, Private`c], Times[Private`a, Power[Private`b, 2], Private`c]]", "Plus[Times[Private`a, Private`b, Private`c], Times[Private`a, Power[Private`b, 2], Private`c]]"},
		{"ex", "ReplaceAll[Plus[Times[Private`a, Private`b, Private`c], Times[Private`a, Power[Private`b, 2], Private`c]], Rule[Times[Private`c, Private`a], Private`d]]", "Plus[Times[Private`b, Private`d], Times[Power[Private`b, 2], Private`d]]"},
		{"ex", "ReplaceAll[Plus[Times[Private`a, Private`b, Private`c], Times[Private`a, Power[Private`b, 2], Private`c]], Rule[Times[Private`a, Private`c], Private`d]]", "Plus[Times[Private`b, Private`d], Times[Power[Private`b, 2], Private`d]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c], Rule[Plus[Private`c, Private`a], Plus[Private`c, Private`a]]]", "Plus[Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c], Rule[Times[Private`c, Private`a, Private`b], Private`d]]", "Private`d"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c], Rule[Times[Private`c, Private`a, Private`b, Private`d], Private`d]]", "Times[Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d, Private`e], Rule[Times[Private`a, Private`b, Private`f], Private`z]]", "Times[Private`a, Private`b, Private`c, Private`d, Private`e]"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d, Private`e], Rule[Times[Private`a, Private`b, Private`c], Private`z]]", "Times[Private`z, Private`d, Private`e]"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d, Private`e], Rule[Times[Private`e, Private`d, Private`c], Private`z]]", "Times[Private`z, Private`a, Private`b]"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d, Private`e], Rule[Times[Private`c, Private`e, Private`d], Private`z]]", "Times[Private`z, Private`a, Private`b]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b], Rule[Plus[Pattern[Private`x, Blank[Symbol]], Pattern[Private`y, Blank[Symbol]]], Power[Private`x, Private`y]]]", "Power[Private`a, Private`b]"},
		{"ex", "Set[Private`x, 2]", "2"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b], Rule[Plus[Pattern[Private`x, Blank[Symbol]], Pattern[Private`y, Blank[Symbol]]], Power[Private`x, Private`y]]]", "Power[2, Private`b]"},
		{"ex", "Private`x", "2"},
		{"ex", "ReplaceAll[Equal[Private`a, Private`b], Rule[Equal[Pattern[Private`j, Blank[Symbol]], Pattern[Private`k, Blank[Symbol]]], Power[Private`j, Private`k]]]", "Power[Private`a, Private`b]"},
		{"ex", "ReplaceAll[Equal[Private`a, Private`b], Rule[Pattern[Private`j, Blank[Equal]], 2]]", "2"},
		{"ex", "ReplaceAll[Equal[Private`a, Private`b], Rule[Pattern[Private`j, Blank[Equal]], Power[Private`j, Private`k]]]", "Power[Equal[Private`a, Private`b], Private`k]"},
		{"ex", "ReplaceAll[Power[2, Private`k], Rule[Pattern[Private`base, Blank[Integer]], Plus[Private`base, 1]]]", "Power[3, Private`k]"},
		{"ex", "ReplaceAll[Power[2, Private`k], Rule[Power[Pattern[Private`base, Blank[Integer]], Pattern[Private`exp, Blank[]]], Power[Plus[Private`base, 1], Private`exp]]]", "Power[3, Private`k]"},
		{"ex", "ReplaceAll[Power[2, Private`k], Rule[Power[Pattern[Private`base, Blank[Integer]], Pattern[Private`exp, Blank[]]], Power[Plus[Private`base, Private`exp], Private`exp]]]", "Power[Plus[2, Private`k], Private`k]"},
		{"ex", "ReplaceAll[Power[2, Private`k], Rule[Power[Pattern[Private`base, Blank[Integer]], Pattern[Private`exp, Blank[Symbol]]], Power[Plus[Private`base, Private`exp], Private`exp]]]", "Power[Plus[2, Private`k], Private`k]"},
		{"ex", "ReplaceAll[Plus[Power[2, Private`k], 1], Rule[Power[Pattern[Private`base, Blank[Integer]], Pattern[Private`exp, Blank[Symbol]]], Power[Plus[Private`base, Private`exp], Private`exp]]]", "Plus[1, Power[Plus[2, Private`k], Private`k]]"},
		{"ex", "ReplaceAll[Plus[Power[Private`a, Private`c], Private`b], Rule[Plus[Power[Pattern[Private`test, Blank[Symbol]], Pattern[Private`test, Blank[Symbol]]], Pattern[Private`test, Blank[Symbol]]], Plus[Private`test, 1]]]", "Plus[Power[Private`a, Private`c], Private`b]"},
		{"ex", "ReplaceAll[Plus[Power[Private`a, Private`a], Private`a], Rule[Plus[Power[Pattern[Private`test, Blank[Symbol]], Pattern[Private`test, Blank[Symbol]]], Pattern[Private`test, Blank[Symbol]]], Plus[Private`test, 1]]]", "Plus[1, Private`a]"},
		{"ex", "ReplaceAll[Power[Private`a, Private`a], Rule[Power[Pattern[Private`test, Blank[Symbol]], Private`test], 2]]", "Power[Private`a, Private`a]"},
		{"ex", "ReplaceAll[Power[Private`a, Private`a], Rule[Power[Pattern[Private`test, Blank[Symbol]], Pattern[Private`test, Blank[Symbol]]], 2]]", "2"},
		{"ex", "ReplaceAll[Power[Private`a, Private`a], Rule[Power[Private`test, Pattern[Private`test, Blank[Symbol]]], 2]]", "Power[Private`a, Private`a]"},
		{"ex", "ReplaceAll[Power[Private`test, Private`a], Rule[Power[Private`test, Pattern[Private`test, Blank[Symbol]]], 2]]", "2"},
		{"ex", "ReplaceAll[Power[Private`a, Private`test], Rule[Power[Pattern[Private`test, Blank[Symbol]], Private`test], 2]]", "2"},
		{"reset", "", ""},
		{"ex", "ReplaceAll[Times[Private`testa, Private`testb], Rule[Times[Pattern[Private`a, Blank[Symbol]], Pattern[Private`a, Blank[Symbol]]], 5]]", "Times[Private`testa, Private`testb]"},
		{"ex", "MatchQ[Times[Private`testa, Private`testb], Times[Pattern[Private`a, Blank[Symbol]], Pattern[Private`a, Blank[Symbol]]]]", "False"},
		{"ex", "ReplaceAll[Plus[Private`testa, Private`testb], Rule[Plus[Pattern[Private`a, Blank[Symbol]], Pattern[Private`a, Blank[Symbol]]], 5]]", "Plus[Private`testa, Private`testb]"},
		{"ex", "ReplaceAll[Times[Private`testa, Private`testb], Rule[Times[Pattern[Private`a, Blank[Symbol]], Pattern[Private`b, Blank[Symbol]]], 5]]", "5"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b], Rule[Plus[Pattern[Private`b, Blank[Symbol]], Pattern[Private`b, Blank[Symbol]]], 2]]", "Plus[Private`a, Private`b]"},
		{"reset", "", ""},
		{"ex", "Set[Private`test, Power[99, Private`k]]", "Power[99, Private`k]"},
		{"ex", "ReplaceAll[Power[99, Private`k], Rule[Private`test, 2]]", "2"},
		{"ex", "ReplaceAll[Power[99, Private`k], Rule[Pattern[Private`test, Blank[]], 2]]", "2"},
		{"ex", "Set[Private`test2, 3]", "3"},
		{"ex", "ReplaceAll[99, Rule[Pattern[Private`test2, Blank[Integer]], Private`test2]]", "3"},
		{"ex", "ReplaceAll[Power[Private`a, Private`b], Rule[Power[Pattern[Private`test3, Blank[Symbol]], Pattern[Private`test3, Blank[Symbol]]], Private`k]]", "Power[Private`a, Private`b]"},
		{"ex", "Set[Private`test3, 5]", "5"},
		{"ex", "ReplaceAll[Power[Private`a, Private`b], Rule[Power[Pattern[Private`test3, Blank[Symbol]], Pattern[Private`test3, Blank[Symbol]]], Private`k]]", "Power[Private`a, Private`b]"},
		{"reset", "", ""},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[5, Private`c]], Rule[Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]], Times[99, Private`a]]]", "Plus[Private`a, Times[99, Private`b], Times[99, Private`c]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[5, Private`c]], Rule[Times[2, Pattern[Private`a, Blank[Symbol]]], Times[99, Private`a]]]", "Plus[Private`a, Times[99, Private`b], Times[5, Private`c]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[2, Private`c]], Rule[Times[2, Pattern[Private`a, Blank[Symbol]]], Times[99, Private`a]]]", "Plus[Private`a, Times[99, Private`b], Times[99, Private`c]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[3, Private`c], Times[3, Private`d]], Rule[Times[Pattern[Private`cl, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]], Times[99, Private`a]]]", "Plus[Private`a, Times[99, Private`b], Times[99, Private`c], Times[99, Private`d]]"},
		{"reset", "", ""},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[5, Private`c]], Rule[Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]], Times[99, Private`a]]]", "Plus[Private`a, Times[99, Private`b], Times[99, Private`c]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[5, Private`c]], Rule[Plus[Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`matcha, Blank[Symbol]]], Times[Pattern[Private`c2, Blank[Integer]], Pattern[Private`matchb, Blank[Symbol]]]], Times[99, Private`matcha]]]", "Plus[Private`a, Times[99, Private`b]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[5, Private`c]], Rule[Plus[Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`matcha, Blank[Symbol]]], Times[Pattern[Private`c2, Blank[Integer]], Pattern[Private`matcha, Blank[Symbol]]]], Times[Plus[Private`c1, Private`c2], Private`matcha]]]", "Plus[Private`a, Times[2, Private`b], Times[5, Private`c]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Times[2, Private`b], Times[5, Private`b]], Rule[Plus[Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`matcha, Blank[Symbol]]], Times[Pattern[Private`c2, Blank[Integer]], Pattern[Private`matcha, Blank[Symbol]]]], Times[Plus[Private`c1, Private`c2], Private`matcha]]]", "Plus[Private`a, Times[7, Private`b]]"},
		{"reset", "", ""},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b], Rule[Plus[Pattern[Private`d, Blank[Symbol]], Pattern[Private`c, Blank[Symbol]]], 2]]", "2"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c], Rule[Plus[Pattern[Private`d, Blank[Symbol]], Pattern[Private`c, Blank[Symbol]]], 2]]", "Plus[2, Private`c]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Pattern[Private`d, Blank[Symbol]], Pattern[Private`c, Blank[Symbol]]], 2]]", "Plus[2, Private`c, Private`d]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Pattern[Private`dmatch, Blank[Symbol]], Pattern[Private`cmatch, Blank[Symbol]]], Plus[Private`cmatch, 99]]]", "Plus[Private`a, 99, Private`c, Private`d]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Pattern[Private`d, Blank[Symbol]], Pattern[Private`c, Blank[Symbol]]], Times[Private`c, Private`d]]]", "Plus[Times[Private`a, Private`b], Private`c, Private`d]"},
		{"ex", "Set[Private`d, 98]", "98"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Pattern[Private`dmatch, Blank[Symbol]], Pattern[Private`cmatch, Blank[Symbol]]], Times[Private`cmatch, Private`dmatch]]]", "Plus[Private`c, 98, Times[Private`b, Private`a]]"},
		{"reset", "", ""},
		{"ex", "ReplaceAll[Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]], Rule[Plus[Pattern[Private`matcha, Blank[]], Times[Pattern[Private`matchb, Blank[]], (-1)]], 2]]", "Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]]"},
		{"ex", "ReplaceAll[Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]], Rule[Plus[Times[2, Pattern[Private`matcha, Blank[]]], Times[Times[2, Pattern[Private`matchb, Blank[]]], (-1)]], Plus[Times[3, Private`matcha], Times[5, Private`matchb]]]]", "Plus[Times[3, Power[Private`a, 2]], Times[5, Power[Private`b, 2]]]"},
		{"ex", "ReplaceAll[Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]], Rule[Plus[Times[Blank[Integer], Pattern[Private`matcha, Blank[]]], Times[Times[Blank[Integer], Pattern[Private`matchb, Blank[]]], (-1)]], 2]]", "Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]]"},
		{"ex", "ReplaceAll[Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]], Rule[Plus[Times[Blank[], Pattern[Private`matcha, Blank[]]], Times[Times[Blank[], Pattern[Private`matchb, Blank[]]], (-1)]], 2]]", "Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]]"},
		{"ex", "ReplaceAll[Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]], Rule[Plus[Blank[], Times[Blank[], (-1)]], 2]]", "Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]]"},
		{"ex", "ReplaceAll[Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]], Rule[Plus[Blank[], Times[Times[2, Blank[]], (-1)]], 2]]", "Plus[Times[2, Power[Private`a, 2]], Times[Times[2, Power[Private`b, 2]], (-1)]]"},
		{"ex", "ReplaceAll[Private`kfdsfdsf[], Rule[Blank[Symbol], Private`test]]", "Private`test[]"},
		{"ex", "ReplaceAll[Plus[Private`x, 2][5, 6], Rule[Plus[2, Private`x], Plus]]", "11"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d], Rule[Blank[Symbol], 2]]", "2[2, 2, 2, 2]"},
		{"ex", "ReplaceAll[Private`foo[Times[2, Private`x], Private`x], Rule[Private`foo[Times[Pattern[Private`matcha, Blank[Integer]], Pattern[Private`matchx, Blank[]]], Pattern[Private`matchx, Blank[]]], Private`matcha]]", "2"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b], Rule[Plus[Private`a, Private`b, Pattern[Private`amatch, BlankNullSequence[]]], Private`foo[Private`amatch]]]", "Private`foo[]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Private`a, Pattern[Private`amatch, BlankNullSequence[]]], Private`foo[Private`amatch]]]", "Private`foo[Private`b, Private`c, Private`d]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Pattern[Private`amatch, BlankNullSequence[]], Private`foo[Private`amatch]]]", "Private`foo[Plus[Private`a, Private`b, Private`c, Private`d]]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b], Rule[Plus[Private`a, Private`b, Pattern[Private`amatch, BlankSequence[]]], Private`foo[Private`amatch]]]", "Plus[Private`a, Private`b]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Plus[Private`a, Pattern[Private`amatch, BlankSequence[]]], Private`foo[Private`amatch]]]", "Private`foo[Private`b, Private`c, Private`d]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Pattern[Private`amatch, BlankSequence[]], Private`foo[Private`amatch]]]", "Private`foo[Plus[Private`a, Private`b, Private`c, Private`d]]"},
		{"ex", "ReplaceAll[{Private`a, Private`b, Private`c}, RuleDelayed[{Pattern[Private`n, BlankSequence[]]}, Length[{Private`n}]]]", "3"},
		{"ex", "ReplaceAll[{Private`a, Private`b, Private`c}, Rule[{Pattern[Private`n, BlankSequence[]]}, Length[{Private`n}]]]", "1"},
		{"ex", "ReplaceAll[Private`foo[Private`m, Private`n], Rule[Private`foo[Pattern[Private`a, Blank[]], Pattern[Private`m, Blank[]]], Private`bar[Private`a, Private`m]]]", "Private`bar[Private`m, Private`n]"},
		{"ex", "ReplaceAll[Private`foo[Equal[Private`x, 2], Private`y, Private`x], Rule[Private`x, 5]]", "Private`foo[False, Private`y, 5]"},
		{"ex", "ReplaceAll[Private`foo[Times[Private`x, 2], Private`y, Private`x], Rule[Times[Private`x, 2], 5]]", "Private`foo[5, Private`y, Private`x]"},
		{"ex", "ReplaceAll[Private`foo[Private`k], Rule[Private`foo[Private`k], Private`k]]", "Private`k"},
		{"ex", "ReplaceAll[Private`foo[Private`foo[Private`k]], Rule[Private`foo[Private`k], Private`k]]", "Private`foo[Private`k]"},
		{"ex", "ReplaceAll[ReplaceAll[Private`foo[Private`foo[Private`k]], Rule[Private`foo[Private`k], Private`k]], Rule[Private`foo[Private`k], Private`k]]", "Private`k"},
		{"ex", "ReplaceAll[Private`foo[Private`foo[Private`k]], Rule[Private`foo[Private`k], Private`bla]]", "Private`foo[Private`bla]"},
		{"ex", "ReplaceAll[Private`foo[1, 2, 3, 4], Rule[Private`foo[1, Pattern[Private`amatch, BlankSequence[Integer]], Pattern[Private`bmatch, BlankNullSequence[Integer]]], Plus[Times[Private`a, Times[Private`amatch]], Times[Private`b, Times[Private`bmatch]]]]]", "Plus[Times[2, Private`a], Times[12, Private`b]]"},
		{"ex", "ReplaceAll[Private`foo[1, 2, 3, 4], Rule[Private`foo[1, Pattern[Private`amatch, BlankNullSequence[Integer]], Pattern[Private`bmatch, BlankNullSequence[Integer]]], Plus[Times[Private`a, Times[Private`amatch]], Times[Private`b, Times[Private`bmatch]]]]]", "Plus[Private`a, Times[24, Private`b]]"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Private`b, Private`c]]", "False"},
		{"ex", "ReplaceAll[And[Private`a, Private`b, Private`c], Rule[And[Private`a, Private`b], Private`f]]", "And[Private`f, Private`c]"},
		{"ex", "MatchQ[And[Private`a, Private`b, Private`c], And[Private`b, Private`c]]", "False"},
		{"ex", "MatchQ[And[Private`a, Private`b, Private`c], And[Private`a, Private`b]]", "False"},
		{"ex", "ReplaceAll[And[Private`a, Private`b, Private`c], Rule[And[Private`a, Private`b], Sequence[Private`jjj, Private`eee]]]", "And[Private`jjj, Private`eee, Private`c]"},
		{"ex", "ReplaceAll[Private`myand[Private`a, Private`b, Private`c], Rule[Private`myand[Private`a, Private`b], Private`f]]", "Private`myand[Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[And[Private`a, Private`b, Private`c], Rule[And[Private`b, Private`a], Sequence[Private`jjj, Private`eee]]]", "And[Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c], Rule[Plus[Private`b, Private`a], Sequence[Private`jjj, Private`eee]]]", "Plus[Private`c, Private`eee, Private`jjj]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b, Private`c], Rule[Plus[Private`a, Private`b], Sequence[Private`jjj, Private`eee]]]", "Plus[Private`c, Private`eee, Private`jjj]"},
		{"ex", "ReplaceAll[And[Private`a, Private`b, Private`c], Rule[And[Private`a, Private`c], Sequence[Private`jjj, Private`eee]]]", "And[Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[And[1, 2, Private`a, Private`b, Private`c], Rule[And[BlankNullSequence[Integer], Private`c], Sequence[Private`jjj, Private`eee]]]", "And[1, 2, Private`a, Private`b, Private`jjj, Private`eee]"},
		{"ex", "ReplaceAll[And[1, 2, Private`a, Private`b, Private`c], Rule[And[BlankSequence[Integer], Private`c], Sequence[Private`jjj, Private`eee]]]", "And[1, 2, Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[And[1, 2, Private`a, Private`b, Private`c], Rule[And[BlankSequence[Integer], Private`a], Sequence[Private`jjj, Private`eee]]]", "And[Private`jjj, Private`eee, Private`b, Private`c]"},
		{"ex", "ReplaceAll[And[1, 2, Private`a, Private`b, Private`c], Rule[And[BlankSequence[Integer], Private`a, BlankSequence[Symbol]], Sequence[Private`jjj, Private`eee]]]", "Sequence[Private`jjj, Private`eee]"},
		{"ex", "ReplaceAll[And[1, 2, Private`a, Private`b, Private`c], Rule[And[BlankSequence[Symbol], Private`a, BlankSequence[Integer]], Sequence[Private`jjj, Private`eee]]]", "And[1, 2, Private`a, Private`b, Private`c]"},
		{"ex", "ReplaceAll[And[1, 2, Private`a, Private`b, Private`c], Rule[And[BlankNullSequence[Symbol], Private`a, BlankNullSequence[Integer]], Sequence[Private`jjj, Private`eee]]]", "And[1, 2, Private`jjj, Private`eee, Private`b, Private`c]"},
	}},
	{"replacement", "Replace", []docEx{
		{"ex", "Replace[Plus[Private`a, Private`b], Rule[Plus[Private`a, Private`b], 2]]", "2"},
		{"ex", "Replace[Plus[Private`a, Private`b], Rule[Private`a, 2]]", "Plus[Private`a, Private`b]"},
		{"ex", "Replace[Plus[Private`a, Private`b], Rule[Blank[], 2]]", "2"},
		{"ex", "Replace[Plus[Private`a, Private`b], {Rule[Plus[Private`a, Private`b], Plus[Private`c, Private`d]], Rule[Plus[Private`c, Private`d], 3]}]", "Plus[Private`c, Private`d]"},
	}},
	{"replacement", "ReplaceRepeated", []docEx{
		{"ex", "SetDelayed[Private`logRules, {RuleDelayed[Log[Times[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]]], Plus[Log[Private`x], Log[Private`y]]], RuleDelayed[Log[Power[Pattern[Private`x, Blank[]], Pattern[Private`k, Blank[]]]], Times[Private`k, Log[Private`x]]]}]", "Null"},
		{"ex", "ReplaceRepeated[Log[Times[Power[Private`a, Private`b], Power[Private`b, Power[Private`c, Private`d]]]], Private`logRules]", "Plus[Times[Private`b, Log[Private`a]], Times[Power[Private`c, Private`d], Log[Private`b]]]"},
	}},
	{"replacement", "Rule", []docEx{
		{"ex", "ReplaceAll[Plus[Power[2, Plus[Power[Private`x, 2], 1]], Power[Private`x, 2]], Rule[Power[Private`x, 2], Private`y]]", "Plus[Power[2, Plus[Private`y, 1]], Private`y]"},
		{"ex", "Apply[Equal, ReplaceAll[{1, 1}, Rule[1, RandomReal[]]]]", "True"},
		{"ex", "Apply[Equal, ReplaceAll[{1, 1}, RuleDelayed[1, RandomReal[]]]]", "False"},
	}},
	{"replacement", "RuleDelayed", []docEx{
		{"ex", "ReplaceAll[Plus[Power[2, Plus[Power[Private`x, 2], 1]], Power[Private`x, 2]], RuleDelayed[Power[Private`x, 2], Private`y]]", "Plus[Power[2, Plus[Private`y, 1]], Private`y]"},
		{"ex", "Apply[Equal, ReplaceAll[{1, 1}, Rule[1, RandomReal[]]]]", "True"},
		{"ex", "Apply[Equal, ReplaceAll[{1, 1}, RuleDelayed[1, RandomReal[]]]]", "False"},
	}},
	{"replacement", "ReplacePart", []docEx{
		{"ex", "ReplacePart[Range[4], Private`foo, 2]", "{1, Private`foo, 3, 4}"},
		{"ex", "ReplacePart[Range[4], Rule[3, Private`foo]]", "{1, 2, Private`foo, 4}"},
		{"ex", "ReplacePart[Range[4], Rule[{3}, Private`foo]]", "{1, 2, Private`foo, 4}"},
		{"ex", "ReplacePart[Range[4], Rule[{3, 1}, Private`foo]]", "{1, 2, 3, 4}"},
		{"ex", "ReplacePart[Range[4], Rule[Pattern[Private`i, Blank[]], Private`foo]]", "{Private`foo, Private`foo, Private`foo, Private`foo}"},
		{"ex", "ReplacePart[Range[4], Rule[7, Private`foo]]", "{1, 2, 3, 4}"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], Rule[{2, 2}, Private`foo]]", "Plus[Private`a, Power[Private`b, Private`foo]]"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], Rule[{2, 2, 1}, Private`foo]]", "Plus[Private`a, Power[Private`b, Private`c]]"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], Rule[{2, Blank[]}, Private`foo]]", "Plus[Private`a, Power[Private`foo, Private`foo]]"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], {Rule[{2, 2}, Private`foo]}]", "Plus[Private`a, Power[Private`b, Private`foo]]"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], {Rule[{2, 2}, Private`foo], Rule[{1}, Private`foo]}]", "Plus[Power[Private`b, Private`foo], Private`foo]"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], {Rule[{1}, Private`foo], Rule[{2, 2}, Private`foo]}]", "Plus[Power[Private`b, Private`foo], Private`foo]"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], {Rule[{1}, Private`foo], Private`bar}]", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], {Rule[{1}, Private`foo], Private`bar}]"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], {Rule[{Pattern[Private`a, Blank[]]}, Private`a]}]", "3"},
		{"ex", "ReplacePart[Private`hi, {Rule[{Pattern[Private`a, Blank[]]}, Private`a]}]", "Private`hi"},
		{"ex", "ReplacePart[Plus[Private`a, Power[Private`b, Private`c]], {Rule[{Blank[], Pattern[Private`a, Blank[]]}, Private`foo[Private`a]]}]", "Plus[Private`a, Power[Private`foo[1], Private`foo[2]]]"},
	}},
	{"sort", "Sort", []docEx{
		{"ex", "Sort[{6, 2, 3.2, (-5.1)}]", "{(-5.1), 2, 3.2, 6}"},
		{"ex", "Sort[{\"hello\", \"a\", \"aa\", \"zzz\"}]", "{\"a\", \"aa\", \"hello\", \"zzz\"}"},
		{"ex", "Sort[{Private`d, Private`a, Private`b, Private`c}]", "{Private`a, Private`b, Private`c, Private`d}"},
		{"ex", "Sort[{5, Private`h, Private`foo[Private`y, 2], Private`bar[Power[Private`a, Private`x]]}]", "{5, Private`h, Private`bar[Power[Private`a, Private`x]], Private`foo[Private`y, 2]}"},
		{"ex", "Sort[Private`foo[Private`d, Private`a, Private`b, Private`c]]", "Private`foo[Private`a, Private`b, Private`c, Private`d]"},
		{"ex", "Sort[{Private`x, Times[2, Private`x], Private`y, Times[2, Private`y], Times[2, Power[Private`y, 2]], Times[2, Power[Private`x, 2]]}]", "{Private`x, Times[2, Private`x], Times[2, Power[Private`x, 2]], Private`y, Times[2, Private`y], Times[2, Power[Private`y, 2]]}"},
	}},
	{"sort", "Order", []docEx{
		{"ex", "Order[Private`a, Private`b]", "1"},
		{"ex", "Order[Private`b, Private`a]", "(-1)"},
		{"ex", "Order[Private`a, Private`aa]", "1"},
		{"ex", "Order[2, 1.]", "(-1)"},
		{"ex", "Order[1, 2]", "1"},
		{"ex", "Order[1, 1]", "0"},
		{"ex", "Order[\"a\", \"b\"]", "1"},
		{"ex", "Order[\"b\", \"a\"]", "(-1)"},
		{"ex", "Order[Private`ab, 1]", "(-1)"},
		{"ex", "Order[1, Private`ab]", "1"},
		{"ex", "Order[Private`y[Private`a], Private`x]", "(-1)"},
		{"ex", "Order[Rational[(-5), 3], Rational[(-4), 6]]", "1"},
		{"ex", "Order[Rational[4, 6], 0.6]", "(-1)"},
		{"ex", "Order[0.6, Rational[4, 6]]", "1"},
		{"ex", "Order[Rational[4, 6], 0.7]", "1"},
		{"ex", "Order[Private`bar[Private`x, Private`y], Private`bar[Private`x, Private`y]]", "0"},
		{"ex", "Order[Private`fizz[Private`bar[Private`x, Private`y]], Private`fizz[Private`bar[Private`x, Private`y, Private`a]]]", "1"},
		{"ex", "Order[Private`a, Private`a]", "0"},
		{"ex", "Order[Private`a, Private`b]", "1"},
		{"ex", "Order[Private`b, Private`a]", "(-1)"},
		{"ex", "Order[Private`a, Private`aa]", "1"},
		{"ex", "Order[Private`aa, Private`aab]", "1"},
		{"ex", "Order[Private`aab, Private`aa]", "(-1)"},
		{"ex", "Order[Private`aa, Private`a]", "(-1)"},
		{"ex", "Order[Private`ab, Private`aa]", "(-1)"},
		{"ex", "Order[2, 1.]", "(-1)"},
		{"ex", "Order[1, 2]", "1"},
		{"ex", "Order[1, 1]", "0"},
		{"ex", "Order[1., 1.]", "0"},
		{"ex", "Order[1, 1.]", "1"},
		{"ex", "Order[1., 1]", "(-1)"},
		{"ex", "Order[Private`ab, 1]", "(-1)"},
		{"ex", "Order[1, Private`ab]", "1"},
		{"ex", "Order[Private`foo[Private`x, Private`y], Private`bar[Private`x, Private`y]]", "(-1)"},
		{"ex", "Order[Private`bar[Private`x, Private`y], Private`foo[Private`x, Private`y]]", "1"},
		{"ex", "Order[Private`bar[Private`x, Private`y], Private`bar[Private`x, Private`y]]", "0"},
		{"ex", "Order[Private`bar[Private`x, Private`y], Private`bar[Private`x, Private`y, Private`z]]", "1"},
		{"ex", "Order[Private`bar[Private`x, Private`y], Private`bar[Private`x, Private`y, Private`a]]", "1"},
		{"ex", "Order[Private`bar[Private`x, Private`y], Private`bar[Private`y, Private`z]]", "1"},
		{"ex", "Order[Private`bar[Private`x, Private`y], Private`bar[Private`w, Private`x]]", "(-1)"},
		{"ex", "Order[Private`fizz[Private`foo[Private`x, Private`y]], Private`fizz[Private`bar[Private`x, Private`y]]]", "(-1)"},
		{"ex", "Order[Private`fizz[Private`bar[Private`x, Private`y]], Private`fizz[Private`foo[Private`x, Private`y]]]", "1"},
		{"ex", "Order[Private`fizz[Private`bar[Private`x, Private`y]], Private`fizz[Private`bar[Private`x, Private`y]]]", "0"},
		{"ex", "Order[Private`fizz[Private`bar[Private`x, Private`y]], Private`fizz[Private`bar[Private`x, Private`y, Private`z]]]", "1"},
		{"ex", "Order[Private`fizz[Private`bar[Private`x, Private`y]], Private`fizz[Private`bar[Private`x, Private`y, Private`a]]]", "1"},
		{"ex", "Order[Private`fizz[Private`bar[Private`x, Private`y]], Private`fizz[Private`bar[Private`y, Private`z]]]", "1"},
		{"ex", "Order[Private`fizz[Private`bar[Private`x, Private`y]], Private`fizz[Private`bar[Private`w, Private`x]]]", "(-1)"},
		{"ex", "Order[Private`fizz[Private`foo[Private`x, Private`y]], Private`fizz[Private`bar[Private`a, Private`y]]]", "(-1)"},
		{"ex", "Order[Private`fizz[Private`foo[Private`x, Private`y]], Private`fizz[Private`bar[Private`z, Private`y]]]", "(-1)"},
		{"ex", "Order[1, Private`a[Private`b]]", "1"},
		{"ex", "Order[1., Private`a[Private`b]]", "1"},
		{"ex", "Order[Private`a[Private`b], 1]", "(-1)"},
		{"ex", "Order[Private`a[Private`b], 1.]", "(-1)"},
		{"ex", "Order[Private`x, Private`y[Private`a]]", "1"},
		{"ex", "Order[Private`x, Private`w[Private`a]]", "1"},
		{"ex", "Order[Private`w[Private`a], Private`x]", "(-1)"},
		{"ex", "Order[Private`y[Private`a], Private`x]", "(-1)"},
		{"ex", "Order[Private`y[], Private`x]", "(-1)"},
		{"ex", "Order[Private`y, Private`x]", "(-1)"},
		{"ex", "Order[Private`w[], Private`x]", "(-1)"},
		{"ex", "Order[Private`w, Private`x]", "1"},
		{"ex", "Order[Rational[4, 6], Rational[2, 3]]", "0"},
		{"ex", "Order[Rational[4, 6], Rational[5, 3]]", "1"},
		{"ex", "Order[Rational[5, 3], Rational[4, 6]]", "(-1)"},
		{"ex", "Order[Rational[(-5), 3], Rational[(-4), 6]]", "1"},
		{"ex", "Order[Rational[4, 6], 0.6]", "(-1)"},
		{"ex", "Order[0.6, Rational[4, 6]]", "1"},
		{"ex", "Order[Rational[4, 6], 0.7]", "1"},
		{"ex", "Order[0.7, Rational[4, 6]]", "(-1)"},
		{"ex", "Order[Rational[4, 6], 0]", "(-1)"},
		{"ex", "Order[Rational[4, 6], 1]", "1"},
		{"ex", "Order[0, Rational[4, 6]]", "1"},
		{"ex", "Order[1, Rational[4, 6]]", "(-1)"},
		{"ex", "Order[Rational[4, 6], Private`a]", "1"},
		{"ex", "Order[Private`a, Rational[4, 6]]", "(-1)"},
		{"ex", "Order[\"a\", 5]", "(-1)"},
		{"ex", "Order[\"a\", 5.5]", "(-1)"},
		{"ex", "Order[\"a\", Times[5, Power[2, (-1)]]]", "(-1)"},
		{"ex", "Order[\"a\", Private`x]", "1"},
		{"ex", "Order[\"a\", Power[Private`x, 2]]", "1"},
		{"ex", "Order[\"a\", Power[Private`x, 2]]", "1"},
		{"ex", "Order[\"b\", \"a\"]", "(-1)"},
		{"ex", "Order[\"a\", \"b\"]", "1"},
		{"ex", "Order[\"a\", \"aa\"]", "1"},
		{"ex", "Order[Power[Private`x, 3], Times[4, Power[Private`x, 2]]]", "(-1)"},
		{"ex", "Order[Power[Private`x, 3], Times[4, Power[Private`x, 2]]]", "(-1)"},
		{"ex", "Order[1, Times[4, Power[Private`x, 2]]]", "1"},
		{"ex", "Order[1, Times[4, Power[Sin[Private`x], 2]]]", "1"},
		{"ex", "Order[Times[5, Power[Private`x, 2]], Times[4, Power[Private`x, 2]]]", "(-1)"},
		{"ex", "Order[Times[4, Power[Private`x, 3]], Times[4, Power[Private`x, 2]]]", "(-1)"},
		{"ex", "Order[Power[Private`x, 2], Times[4, Power[Private`x, 2]]]", "1"},
		{"ex", "Order[Power[Private`x, 2], Private`foo[Private`x]]", "1"},
		{"ex", "Order[Power[Private`x, 2], Times[Private`x, Private`y]]", "1"},
		{"ex", "Order[Times[3, Power[Private`x, 3]], Times[4, Power[Private`x, 2]]]", "(-1)"},
		{"ex", "Order[Times[Private`d, Private`g], Times[Private`d, Private`f]]", "(-1)"},
		{"ex", "Order[Times[Private`d, Private`g], Times[Private`d, Private`g]]", "0"},
		{"ex", "Order[Times[Private`d, Private`g], Times[Private`d, Private`h]]", "1"},
		{"ex", "Order[Times[Private`d, Private`g], Times[Private`e, Private`g]]", "1"},
		{"ex", "Order[Times[Private`d, Private`g], Times[Private`e, Private`h]]", "1"},
		{"ex", "Order[Times[Private`d, Private`g], Times[Private`e, Private`f]]", "(-1)"},
		{"ex", "Order[Times[Power[Private`x, 2], Private`y], Times[Private`x, Power[Private`y, 2]]]", "1"},
		{"ex", "Order[Times[Power[Private`x, 4], Power[Private`y, 2]], Times[Power[Private`x, 2], Power[Private`y, 4]]]", "1"},
		{"ex", "Order[Times[Power[Private`x, 2], Private`y], Times[2, Private`x, Power[Private`y, 2]]]", "1"},
		{"ex", "Order[Private`c, Times[5, Private`b, Private`c]]", "1"},
		{"ex", "Sort[{(-1), (-1.), 0.1, 0.11, 2., (-0.1), 2, 0, 2, Times[2, Private`x], Times[2, Private`y], Private`x, Private`xxx, Power[2, Private`x], Power[Private`x, 2], Power[Private`x, Private`x], Power[Private`x, Times[2, Private`x]], Power[0.5, Private`x]}]", "{(-1), (-1.), (-0.1), 0, 0.1, 0.11, 2, 2, 2., Power[0.5, Private`x], Power[2, Private`x], Private`x, Times[2, Private`x], Power[Private`x, 2], Power[Private`x, Private`x], Power[Private`x, Times[2, Private`x]], Private`xxx, Times[2, Private`y]}"},
		{"ex", "Order[Private`foo[Private`x], Times[Private`x, (-1)]]", "(-1)"},
		{"ex", "Order[Private`a[Private`b, Private`piz, Private`foo[]], Private`a[Private`b, Private`foo[]]]", "(-1)"},
		{"ex", "Sort[{Power[Private`A, (-1)], Power[Private`k, (-1)], Times[I, (-1)], Private`A, Private`k}]", "{Times[I, (-1)], Times[1, Power[Private`A, (-1)]], Private`A, Times[1, Power[Private`k, (-1)]], Private`k}"},
	}},
	{"system", "Attributes", []docEx{
		{"ex", "Attributes[Infinity]", "{Protected, ReadProtected}"},
		{"ex", "Attributes[Attributes]", "{HoldAll, Listable, Protected}"},
		{"ex", "Attributes[Plus]", "{Flat, Listable, NumericFunction, OneIdentity, Orderless, Protected}"},
		{"ex", "Attributes[Private`undefinedSym]", "{}"},
		{"ex", "Attributes[2]", "Attributes[2]"},
		{"ex", "Attributes[Power[Private`a, 2]]", "Attributes[Power[Private`a, 2]]"},
	}},
	{"system", "Default", []docEx{
		{"ex", "Default[Times]", "1"},
		{"ex", "Default[Plus]", "0"},
		{"ex", "Default[Private`foo]", "Default[Private`foo]"},
	}},
	{"system", "Clear", []docEx{
		{"ex", "Private`a", "Private`a"},
		{"ex", "Set[Private`a, 5]", "5"},
		{"ex", "Set[Private`b, 6]", "6"},
		{"ex", "Set[Private`c, 7]", "7"},
		{"ex", "Private`a", "5"},
		{"ex", "Clear[Private`a, 99, Private`b]", "Null"},
		{"ex", "Head[Private`a]", "Symbol"},
		{"ex", "Head[Private`b]", "Symbol"},
		{"ex", "Head[Private`c]", "Integer"},
		{"ex", "Clear[Private`c]", "Null"},
		{"ex", "Head[Private`c]", "Symbol"},
	}},
	{"system", "DownValues", []docEx{
		{"ex", "ClearAll[Private`myfoo]", "Null"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], Condition[Private`a, Private`b]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "1"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], Condition[Private`a, Private`b]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "1"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], Condition[Private`b, Private`b]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "1"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], Condition[Private`a, Private`c]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "2"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], With[{}, Condition[Private`a, Private`c]]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "3"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], With[{}, Condition[Private`b, Private`c]]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "3"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], With[{Set[Private`a, 2]}, Condition[Private`b, Private`c]]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "4"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], With[{Set[Private`a, 3]}, Condition[Private`b, Private`c]]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "5"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], With[{Set[Private`a, 2]}, Condition[Private`c, Private`c]]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "5"},
		{"ex", "CompoundExpression[SetDelayed[Private`myfoo[Blank[]], Condition[With[{Set[Private`a, 2]}, Condition[Private`c, Private`c]], True]], Null]", "Null"},
		{"ex", "Length[DownValues[Private`myfoo]]", "6"},
		{"ex", "Length[DownValues[Private`myfoo]]", "6"},
		{"ex", "CompoundExpression[Set[DownValues[Private`dvAssignTest], {RuleDelayed[HoldPattern[Private`dvAssignTest[1]], 123], RuleDelayed[HoldPattern[Private`dvAssignTest[Blank[]]], 321]}], Null]", "Null"},
		{"ex", "Private`dvAssignTest[1]", "123"},
		{"ex", "Private`dvAssignTest[2]", "321"},
	}},
	{"system", "Set", []docEx{
		{"str", "x=1+2", "3"},
		{"str", "x", "3"},
		{"str", "x+1", "4"},
		{"str", "x+1", "4"},
		{"str", "x=1+2", "3"},
		{"str", "x*2", "6"},
		{"str", "x=x*2", "6"},
		{"str", "x=x*x", "36"},
		{"src", "Attributes[Set]", "{HoldFirst, Protected, SequenceHold}"},
		{"src", "Attributes[SetDelayed]", "{HoldAll, Protected, SequenceHold}"},
	}},
	{"system", "SetDelayed", []docEx{
		{"src", "testa[x_] := x*2", "Null"},
		{"src", "testa[x_Integer] := x*3", "Null"},
		{"src", "testa[x_Real] := x*4", "Null"},
		{"src", "testa[2.]", "8."},
		{"src", "testa[2]", "6"},
		{"src", "testa[k]", "2 * k"},
		{"src", "Attributes[Set]", "{HoldFirst, Protected, SequenceHold}"},
		{"src", "Attributes[SetDelayed]", "{HoldAll, Protected, SequenceHold}"},
		{"src", "testa[x_] := x*2", "Null"},
		{"src", "testa[x_Integer] := x*3", "Null"},
		{"src", "testa[x_Real] := x*4", "Null"},
		{"src", "testa[2.]", "8."},
		{"src", "testa[2]", "6"},
		{"src", "testa[k]", "2 * k"},
		{"src", "testb[x_Real] := x*4", "Null"},
		{"src", "testb[x_Integer] := x*3", "Null"},
		{"src", "testb[x_] := x*2", "Null"},
		{"src", "testb[2.]", "8."},
		{"src", "testb[2]", "6"},
		{"src", "testb[k]", "2 * k"},
		{"src", "testa", "testa"},
		{"src", "testb", "testb"},
		{"src", "testb[x_] := x*5", "Null"},
		{"src", "testb[k]", "5 * k"},
		{"src", "testb[2.]", "8."},
		{"src", "testb[x_Real + sym] := 5", "Null"},
		{"src", "testb[2.+sym]", "5"},
		{"src", "testb[sym+2.]", "5"},
		{"src", "testb[x_Real + sym] := 6", "Null"},
		{"src", "testb[2.+sym]", "6"},
		{"src", "testb[sym+2.]", "6"},
		{"src", "dist[x_, y_]:=(x^2 + y^2)^.5", "Null"},
		{"src", "dist[j,k]", "(j^2+k^2)^.5"},
		{"src", "foo[k_, m_] := bar[k, m]", "Null"},
		{"src", "foo[m, 2]", "bar[m, 2]"},
		{"src", "fizz[m_, k_] := buzz[m, k]", "Null"},
		{"src", "fizz[m, 2]", "buzz[m, 2]"},
		{"src", "\"pass\"", "Attributes[holdTest]= {HoldAll};holdTest[1+1]:=\"pass\";holdTest[1+1]"},
	}},
	{"system", "Timing", []docEx{}},
	{"system", "MessageName", []docEx{
		{"ex", "MessageName[MessageName, \"usage\"]", "\"`sym::msg` references a particular message for `sym`.\""},
	}},
	{"system", "Trace", []docEx{
		{"ex", "Trace[Plus[1, 2]]", "{HoldForm[Plus[1, 2]], HoldForm[3]}"},
		{"ex", "Trace[Plus[Plus[1, 3], 2]]", "{{HoldForm[Plus[1, 3]], HoldForm[4]}, HoldForm[Plus[4, 2]], HoldForm[6]}"},
		{"ex", "Trace[Plus[2, Plus[1, 3]]]", "{{HoldForm[Plus[1, 3]], HoldForm[4]}, HoldForm[Plus[2, 4]], HoldForm[6]}"},
		{"ex", "Trace[Plus[Private`a, Private`b, Private`c]]", "{}"},
		{"ex", "Trace[1]", "{}"},
		{"ex", "Trace[Power[2, 2]]", "{HoldForm[Power[2, 2]], HoldForm[4]}"},
		{"ex", "Trace[Times[Power[2, 2], 5]]", "{{HoldForm[Power[2, 2]], HoldForm[4]}, HoldForm[Times[4, 5]], HoldForm[20]}"},
		{"ex", "Trace[Plus[Times[Power[2, 2], 5], 4]]", "{{{HoldForm[Power[2, 2]], HoldForm[4]}, HoldForm[Times[4, 5]], HoldForm[20]}, HoldForm[Plus[20, 4]], HoldForm[24]}"},
		{"ex", "Trace[Plus[Times[Power[2, 2], Power[3, 3], 5], 4]]", "{{{HoldForm[Power[2, 2]], HoldForm[4]}, {HoldForm[Power[3, 3]], HoldForm[27]}, HoldForm[Times[4, 27, 5]], HoldForm[540]}, HoldForm[Plus[540, 4]], HoldForm[544]}"},
		{"ex", "Trace[Plus[Private`b, Private`a]]", "{HoldForm[Plus[Private`b, Private`a]], HoldForm[Plus[Private`a, Private`b]]}"},
		{"ex", "Trace[Plus[Private`a, Private`foo[Private`a, Private`b]]]", "{}"},
		{"ex", "Trace[Private`foo[Sequence[Private`a, Private`b]]]", "{HoldForm[Private`foo[Sequence[Private`a, Private`b]]], HoldForm[Private`foo[Private`a, Private`b]]}"},
	}},
	{"system", "N", []docEx{
		{"ex", "N[2]", "2."},
		{"ex", "N[Times[1, Power[2, (-1)]]]", "0.5"},
		{"str", "(-1)^(1/6) // N // Im", "0.5"},
	}},
	{"system", "Listable", []docEx{
		{"ex", "Boole[{True, True, True, False}]", "{1, 1, 1, 0}"},
		{"ex", "Positive[{(-1), 4, 5}]", "{False, True, True}"},
		{"ex", "Positive[{{(-1), 4, 5}}]", "{{False, True, True}}"},
		{"ex", "Positive[{{(-1), 4, 5}, {6, (-1)}}]", "{{False, True, True}, {True, False}}"},
		{"ex", "Positive[{(-1), 4, 5}, 2]", "{Positive[(-1), 2], Positive[4, 2], Positive[5, 2]}"},
		{"ex", "Positive[{(-1), 4, 5}, {1, 2}]", "Positive[{(-1), 4, 5}, {1, 2}]"},
		{"ex", "Positive[{(-1), 4, 5}, {1, 2, 3}]", "{Positive[(-1), 1], Positive[4, 2], Positive[5, 3]}"},
	}},
	{"system", "ClearAll", []docEx{
		{"ex", "Set[Attributes[Private`mytestsym], {HoldAll}]", "{HoldAll}"},
		{"ex", "SetDelayed[Private`mytestsym[5], 6]", "Null"},
		{"ex", "SetDelayed[Private`mytestsym[7], 8]", "Null"},
		{"ex", "Length[Attributes[Private`mytestsym]]", "1"},
		{"ex", "Length[DownValues[Private`mytestsym]]", "2"},
		{"ex", "ClearAll[Private`mytestsym]", "Null"},
		{"ex", "Length[Attributes[Private`mytestsym]]", "0"},
		{"ex", "Length[DownValues[Private`mytestsym]]", "0"},
	}},
	{"system", "Catch", []docEx{
		{"ex", "Catch[CompoundExpression[Private`a, Private`b, Throw[Private`c], Private`d, Private`e]]", "Private`c"},
		{"ex", "Catch[{Private`a, Private`b, Throw[Private`c], Private`d}]", "Private`c"},
	}},
	{"system", "ExpreduceMaskNonConditional", []docEx{
		{"ex", "ExpreduceMaskNonConditional[Plus[Private`a, Private`b]]", "Hold[ExpreduceNonConditional]"},
		{"ex", "ExpreduceMaskNonConditional[With[{}, Condition[Private`a, Private`c]]]", "Hold[With[{}, Condition[ExpreduceNonConditional, Private`c]]]"},
		{"ex", "ExpreduceMaskNonConditional[Condition[With[{Set[Private`a, 2]}, Condition[Private`c, Private`c]], True]]", "Hold[Condition[With[{Set[Private`a, 2]}, Condition[ExpreduceNonConditional, Private`c]], True]]"},
		{"ex", "ExpreduceMaskNonConditional[With[{}, Private`a]]", "Hold[ExpreduceNonConditional]"},
	}},
	{"system", "Streams", []docEx{
		{"ex", "Streams[]", "{OutputStream[\"stdout\", 1], OutputStream[\"stderr\", 2]}"},
	}},
	{"system", "Names", []docEx{
		{"ex", "Greater[Length[Names[]], 1]", "True"},
	}},
	{"trig", "TrigToExp", []docEx{
		{"ex", "TrigToExp[Cos[Times[Private`x, Private`y]]]", "Plus[Times[1, Power[2, (-1)], Power[E, Times[I, (-1), Private`x, Private`y]]], Times[1, Power[2, (-1)], Power[E, Times[I, Private`x, Private`y]]]]"},
		{"ex", "TrigToExp[Plus[Cos[Plus[Private`x, Private`y]], Private`b]]", "Plus[Private`b, Times[1, Power[2, (-1)], Power[E, Plus[Times[I, (-1), Private`x], Times[Times[I, Private`y], (-1)]]]], Times[1, Power[2, (-1)], Power[E, Plus[Times[I, Private`x], Times[I, Private`y]]]]]"},
		{"ex", "TrigToExp[Sin[Plus[Private`x, Private`y]]]", "Plus[Times[1, Power[2, (-1)], I, Power[E, Plus[Times[I, (-1), Private`x], Times[Times[I, Private`y], (-1)]]]], Times[Times[1, Power[2, (-1)], I, Power[E, Plus[Times[I, Private`x], Times[I, Private`y]]]], (-1)]]"},
		{"ex", "TrigToExp[Private`x]", "Private`x"},
	}},
	{"trig", "Degree", []docEx{
		{"ex", "Sin[Times[90, Degree]]", "1"},
	}},
	{"trig", "RotationMatrix", []docEx{
		{"ex", "RotationMatrix[Times[90, Degree]]", "{{0, (-1)}, {1, 0}}"},
	}},
	{"plot", "Plot", []docEx{
		{"ex", "Head[Plot[Plus[Times[2, Cos[Plus[Times[10, Private`t], 1]]], Times[Sin[Plus[Times[4, Private`t], Times[1, (-1)]]], (-1)]], {Private`t, 0, 10}]]", "Graphics"},
	}},
	{"string", "ToString", []docEx{
		{"ex", "ToString[Power[a, 2], InputForm]", "\"a^2\""},
		{"ex", "ToString[Sin[1], TeXForm]", "\"\\\\sin \\\\left(1\\\\right)\""},
		{"ex", "ToString[\"Hello World\"]", "\"Hello World\""},
		{"ex", "ToString[Sin[], TeXForm]", "\"\\\\sin \\\\left(\\\\right)\""},
		{"ex", "ToString[Sin[1, 2], TeXForm]", "\"\\\\sin \\\\left(1,2\\\\right)\""},
	}},
	{"string", "StringJoin", []docEx{
		{"ex", "StringJoin[\"Hello\", \" \", \"World\"]", "\"Hello World\""},
		{"ex", "StringJoin[\"If a=2, then \", ToString[Power[a, 2], InputForm], \"=\", ToString[ReplaceAll[Power[Private`a, 2], Rule[Private`a, 2]], InputForm]]", "\"If a=2, then a^2=4\""},
		{"ex", "StringJoin[]", "\"\""},
		{"ex", "StringJoin[\"Hello\", 5]", "StringJoin[\"Hello\", 5]"},
		{"ex", "StringJoin[{\"a\", \"b\", \"c\"}]", "\"abc\""},
	}},
	{"string", "Infix", []docEx{
		{"ex", "ToString[Infix[Private`foo[bar, fuzz, zip], \"|\"]]", "\"bar|fuzz|zip\""},
	}},
	{"string", "StringLength", []docEx{
		{"ex", "StringLength[\"Hello\"]", "5"},
	}},
	{"string", "StringTake", []docEx{
		{"ex", "StringTake[\"hello\", {1, 1}]", "\"h\""},
		{"ex", "StringTake[\"hello\", {0, 1}]", "StringTake[\"hello\", {0, 1}]"},
		{"ex", "StringTake[\"hello\", {1, StringLength[\"hello\"]}]", "\"hello\""},
		{"ex", "StringTake[\"hello\", {2, 1}]", "\"\""},
		{"ex", "StringTake[\"hello\", {2, 999}]", "StringTake[\"hello\", {2, 999}]"},
	}},
	{"string", "StringReplace", []docEx{
		{"ex", "StringReplace[\"hello world\", Rule[\"world\", \"foo\"]]", "\"hello foo\""},
	}},
	{"string", "ExportString", []docEx{
		{"ex", "ExportString[\"Hello World\", \"base64\"]", "\"SGVsbG8gV29ybGQ=\n\""},
		{"ex", "ExportString[\"Hello World\", \"Base64\"]", "\"SGVsbG8gV29ybGQ=\n\""},
		{"ex", "ExportString[\"kdkfdf\"]", "ExportString[\"kdkfdf\"]"},
		{"ex", "ExportString[\"kdkfdf\", \"jkfdfd\"]", "$Failed"},
	}},
	{"time", "UnixTime", []docEx{
		{"ex", "Head[UnixTime[]]", "Integer"},
	}},
	{"time", "Pause", []docEx{}},
	{"pattern", "MatchQ", []docEx{
		{"ex", "MatchQ[Times[2, Private`x], Blank[]]", "True"},
		{"ex", "MatchQ[Times[2, Private`x], Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]]]", "True"},
		{"ex", "MatchQ[Times[Private`x, 2], Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]]]", "True"},
		{"ex", "MatchQ[Times[Private`x, 2], Times[Pattern[Private`c1, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Pattern[Private`x, Blank[Symbol]], Pattern[Private`x, Blank[Symbol]]]]", "False"},
		{"ex", "MatchQ[{Power[2, Private`a], Private`a}, {Power[2, Pattern[Private`x, Blank[Symbol]]], Pattern[Private`x, Blank[Symbol]]}]", "True"},
		{"ex", "MatchQ[{Power[2, Private`a], Private`b}, {Power[2, Pattern[Private`x, Blank[Symbol]]], Pattern[Private`x, Blank[Symbol]]}]", "False"},
		{"ex", "MatchQ[{Private`a, Private`b}, {Private`a, BlankSequence[]}]", "True"},
		{"ex", "MatchQ[{Private`a}, {Private`a, BlankSequence[]}]", "False"},
		{"ex", "MatchQ[{Private`a}, {Private`a, BlankNullSequence[]}]", "True"},
		{"ex", "MatchQ[Power[2, Private`x], Power[Pattern[Private`base, Blank[Integer]], Pattern[Private`pow, Blank[Symbol]]]]", "True"},
		{"ex", "MatchQ[Plus[2, Private`x], Plus[Pattern[Private`c1, Blank[Integer]], Pattern[Private`a, Blank[Symbol]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Pattern[Private`x, Blank[Symbol]], Pattern[Private`y, Blank[Symbol]]]]", "True"},
		{"ex", "MatchQ[{Private`a, Private`b}, {Pattern[Private`x, Blank[Symbol]], Pattern[Private`y, Blank[Symbol]]}]", "True"},
		{"ex", "MatchQ[{Private`a, Private`b}, {Pattern[Private`x, Blank[Symbol]], Pattern[Private`x, Blank[Symbol]]}]", "False"},
		{"ex", "SetDelayed[Plus[Private`testa, Private`testb, Pattern[Private`rest, BlankNullSequence[]]], Plus[Private`bar, Private`rest]]", "Null"},
		{"ex", "Plus[Private`testa, 1, Private`testb, Private`a, Private`b, Private`c, Private`d, Private`e, Private`f, Private`g]", "Plus[Private`bar, 1, Private`a, Private`b, Private`c, Private`d, Private`e, Private`f, Private`g]"},
		{"ex", "MatchQ[Private`foo[Times[2, Private`x], Private`x], Private`foo[Times[Pattern[Private`matcha, Blank[Integer]], Pattern[Private`matchx, Blank[]]], Pattern[Private`matchx, Blank[]]]]", "True"},
		{"ex", "MatchQ[Private`foo[Times[2, Private`x], Private`x], Private`bar[Times[Pattern[Private`matcha, Blank[Integer]], Pattern[Private`matchx, Blank[]]], Pattern[Private`matchx, Blank[]]]]", "False"},
		{"ex", "MatchQ[Private`foo[Times[2, Private`x], Private`y], Private`foo[Times[Pattern[Private`matcha, Blank[Integer]], Pattern[Private`matchx, Blank[]]], Pattern[Private`matchx, Blank[]]]]", "False"},
		{"ex", "MatchQ[Private`foo[Private`x, Times[2, Private`y]], Private`foo[Times[Pattern[Private`matcha, Blank[Integer]], Pattern[Private`matchx, Blank[]]], Pattern[Private`matchx, Blank[]]]]", "False"},
		{"ex", "MatchQ[Private`foo[Times[2, Private`x], 2], Private`foo[Times[Pattern[Private`p, Blank[]], Pattern[Private`v, Blank[]]], Pattern[Private`v, Blank[]]]]", "True"},
		{"ex", "MatchQ[Private`mysolve[Equal[Plus[Times[Private`m, Private`x], Private`b], 0], Private`x], Private`mysolve[Equal[Plus[Times[Pattern[Private`x, Blank[]], BlankSequence[]], Blank[]], Blank[]], Pattern[Private`x, Blank[]]]]", "True"},
		{"ex", "MatchQ[Private`mysolve[Equal[Plus[Times[Private`m, Private`x], Private`b], 0], Private`y], Private`mysolve[Equal[Plus[Times[Pattern[Private`x, Blank[]], BlankSequence[]], Blank[]], Blank[]], Pattern[Private`x, Blank[]]]]", "False"},
		{"ex", "MatchQ[Private`mysolve[Plus[Times[Private`m, Private`x], Private`a], Private`m], Private`mysolve[Plus[Times[Pattern[Private`x, Blank[]], Blank[]], Private`a], Pattern[Private`x, Blank[]]]]", "True"},
		{"ex", "MatchQ[Private`bar[Plus[Private`foo[Plus[Private`a, Private`b]], Private`c, Private`d], Private`c, Private`d, Private`a, Private`b], Private`bar[Plus[Pattern[Private`w, Blank[]], Pattern[Private`x, Blank[]], Private`foo[Plus[Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]]]]], Pattern[Private`w, Blank[]], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]]]]", "True"},
		{"ex", "MatchQ[Private`bar[Plus[Private`foo[Plus[Private`a, Private`b]], Private`c, Private`d], Private`d, Private`c, Private`b, Private`a], Private`bar[Plus[Pattern[Private`w, Blank[]], Pattern[Private`x, Blank[]], Private`foo[Plus[Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]]]]], Pattern[Private`w, Blank[]], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]]]]", "True"},
		{"ex", "MatchQ[Private`bar[Plus[Private`foo[Plus[Private`a, Private`b]], Private`c, Private`d], Private`d, Private`a, Private`b, Private`c], Private`bar[Plus[Pattern[Private`w, Blank[]], Pattern[Private`x, Blank[]], Private`foo[Plus[Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]]]]], Pattern[Private`w, Blank[]], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b][Private`testsym], Blank[Plus[Private`a, Private`b]]]", "True"},
	}},
	{"pattern", "Pattern", []docEx{
		{"ex", "ReplaceAll[Private`foo[2, 1], Rule[Private`foo[Pattern[Private`a, Blank[]], Pattern[Private`b, Blank[]]], Private`a]]", "2"},
		{"ex", "ReplaceAll[Private`foo[2, 1], Rule[Private`foo[Pattern[Private`a, Blank[]], Pattern[Private`a, Blank[]]], Private`a]]", "Private`foo[2, 1]"},
		{"ex", "ReplaceAll[Private`foo[2, 2], Rule[Private`foo[Pattern[Private`a, Blank[]], Pattern[Private`a, Blank[]]], Private`a]]", "2"},
		{"ex", "MatchQ[2, Pattern[Private`a, Blank[Integer]]]", "True"},
		{"ex", "MatchQ[2, Pattern[Private`a, Blank[Real]]]", "False"},
		{"ex", "ReplaceAll[Private`foo[2, 1], Rule[Private`foo[Pattern[Private`a, BlankNullSequence[Integer]]], Private`bar[Private`a]]]", "Private`bar[2, 1]"},
	}},
	{"pattern", "Blank", []docEx{
		{"ex", "MatchQ[Plus[Private`a, Private`b], Blank[]]", "True"},
		{"ex", "MatchQ[1, Blank[Integer]]", "True"},
		{"ex", "MatchQ[Private`s, Blank[Integer]]", "False"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d], Rule[Blank[Times], 2]]", "2"},
		{"ex", "MatchQ[Plus[Private`x, 3.], Plus[Pattern[Private`c1match, Blank[Real]], Pattern[Private`matcha, Blank[]]]]", "True"},
		{"ex", "MatchQ[Private`s, Blank[Symbol]]", "True"},
		{"ex", "MatchQ[1, Blank[Symbol]]", "False"},
		{"ex", "MatchQ[Blank[Symbol], Blank[Symbol]]", "False"},
		{"ex", "MatchQ[Blank[Integer], Blank[Integer]]", "False"},
		{"ex", "MatchQ[Blank[Symbol], Blank[Blank]]", "True"},
		{"ex", "MatchQ[Blank[Symbol], Pattern[Private`test, Blank[Blank]]]", "True"},
		{"ex", "MatchQ[Blank[Symbol], Pattern[Private`test, Blank[Blank]]]", "True"},
		{"ex", "MatchQ[Blank[Symbol], Pattern[Private`test, Blank[Symbol]]]", "False"},
		{"ex", "MatchQ[Pattern[Private`name, Blank[Symbol]], Pattern[Private`test, Blank[Blank]]]", "False"},
		{"ex", "MatchQ[Pattern[Private`name, Blank[Symbol]], Pattern[Private`test, Blank[Pattern]]]", "True"},
		{"ex", "MatchQ[Blank[Symbol], Pattern[Private`test, Blank[Blank]]]", "True"},
		{"ex", "MatchQ[Blank[Symbol], Pattern[Private`test, Blank[Pattern]]]", "False"},
		{"ex", "MatchQ[1.5, Blank[Integer]]", "False"},
		{"ex", "MatchQ[1.5, Blank[Real]]", "True"},
		{"ex", "Equal[Blank[Symbol], Blank[Symbol]]", "True"},
		{"ex", "Equal[Blank[Symbol], Blank[Integer]]", "Equal[Blank[Symbol], Blank[Integer]]"},
		{"ex", "MatchQ[Blank[Symbol], Private`s]", "False"},
		{"ex", "MatchQ[Blank[Integer], 1]", "False"},
		{"ex", "Equal[Blank[Integer], 1]", "Equal[Blank[Integer], 1]"},
		{"ex", "Equal[1, Blank[Integer]]", "Equal[1, Blank[Integer]]"},
		{"ex", "SameQ[Blank[Integer], 1]", "False"},
		{"ex", "SameQ[1, Blank[Integer]]", "False"},
		{"ex", "SameQ[Blank[Integer], Blank[Integer]]", "True"},
		{"ex", "SameQ[Blank[Symbol], Private`a]", "False"},
		{"ex", "SameQ[Private`a, Blank[Symbol]]", "False"},
		{"ex", "SameQ[Blank[Symbol], Blank[Symbol]]", "True"},
		{"ex", "Equal[Private`a, Private`b]", "Equal[Private`a, Private`b]"},
		{"ex", "ReplaceAll[Equal[Private`a, Private`b], Rule[Blank[Equal], 2]]", "2"},
		{"ex", "If[Equal[1, Private`k], Private`itstrue, Private`itsfalse]", "If[Equal[1, Private`k], Private`itstrue, Private`itsfalse]"},
		{"ex", "ReplaceAll[If[Equal[1, Private`k], Private`itstrue, Private`itsfalse], Rule[Blank[If], 99]]", "99"},
		{"ex", "MatchQ[Private`kfdsfdsf[], Blank[Function]]", "False"},
		{"ex", "MatchQ[Private`kfdsfdsf[], Blank[Private`kfdsfdsf]]", "True"},
		{"ex", "ReplaceAll[Private`kfdsfdsf[], Rule[Blank[Private`kfdsfdsf], 99]]", "99"},
		{"ex", "Plus[Private`a, Private`b]", "Plus[Private`a, Private`b]"},
		{"ex", "ReplaceAll[Plus[Private`a, Private`b], Rule[Blank[Plus], 2]]", "2"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b], Rule[Blank[Times], 2]]", "2"},
		{"ex", "ReplaceAll[Power[Private`a, Private`b], Rule[Blank[Power], 2]]", "2"},
		{"ex", "ReplaceAll[Rule[Private`a, Private`b], Rule[Blank[Rule], 2]]", "2"},
		{"ex", "ReplaceAll[Times[Private`a, Private`b, Private`c, Private`d], Rule[Blank[Times], 2]]", "2"},
		{"ex", "MatchQ[Times[Private`x, 3.], Times[Pattern[Private`c1match, Blank[Real]], Pattern[Private`matcha, Blank[]]]]", "True"},
		{"ex", "MatchQ[Times[3., Private`x], Times[Pattern[Private`c1match, Blank[Real]], Pattern[Private`matcha, Blank[]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`x, 3.], Plus[Pattern[Private`c1match, Blank[Real]], Pattern[Private`matcha, Blank[]]]]", "True"},
		{"ex", "MatchQ[Plus[3., Private`x], Plus[Pattern[Private`c1match, Blank[Real]], Pattern[Private`matcha, Blank[]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`y, Private`x], Pattern[Private`matcha, Blank[]]]", "True"},
		{"ex", "MatchQ[Times[Private`y, Private`x], Pattern[Private`matcha, Blank[]]]", "True"},
	}},
	{"pattern", "BlankSequence", []docEx{
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Private`b, BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Private`b, Private`c, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Times[Private`a, Private`b], BlankSequence[Symbol]]", "False"},
		{"ex", "MatchQ[Times[Private`a, Private`b], Pattern[Private`x, BlankSequence[Symbol]]]", "False"},
		{"ex", "MatchQ[Private`a, BlankSequence[Symbol]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b], Pattern[Private`x, BlankSequence[Times]]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b], Pattern[Private`x, BlankSequence[Plus]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Pattern[Private`x, BlankSequence[Plus]]]", "True"},
		{"ex", "MatchQ[Private`a, BlankSequence[]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], BlankSequence[]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b], BlankSequence[]]", "True"},
		{"ex", "MatchQ[Private`a, Times[Private`a, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Private`b, BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c, Private`d], Plus[Private`a, Private`b, BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b], BlankSequence[Symbol]]", "False"},
		{"ex", "MatchQ[Times[Private`a, Private`b], Pattern[Private`x, BlankSequence[Symbol]]]", "False"},
		{"ex", "MatchQ[Private`a, BlankSequence[Symbol]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b], Pattern[Private`x, BlankSequence[Times]]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b], Pattern[Private`x, BlankSequence[Plus]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Pattern[Private`x, BlankSequence[Plus]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Pattern[Private`x, BlankSequence[Symbol]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Pattern[Private`x, BlankSequence[Plus]]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Pattern[Private`x, BlankSequence[Symbol]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Pattern[Private`x, BlankSequence[Plus]]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Private`b, Pattern[Private`x, BlankSequence[Symbol]]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Private`b, Pattern[Private`x, BlankSequence[Plus]]]]", "False"},
		{"ex", "MatchQ[Times[4, Private`a, Private`b, Private`c, Private`d, Private`e, Private`f], BlankSequence[]]", "True"},
		{"ex", "MatchQ[Times[4, Private`a, Private`b, Private`c, Private`d, Private`e, Private`f], Times[4, BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Times[4, Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[4, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Times[4, Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[4, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[4, BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[4, BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[5, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Plus[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], 5], Times[4, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Plus[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[5, Private`k]], Times[4, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Plus[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[5, Private`k]], Times[4, BlankSequence[]]]", "False"},
		{"ex", "MatchQ[Plus[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], Times[5, Private`k]], Plus[Times[4, BlankSequence[]], Times[5, Private`k]]]", "True"},
		{"ex", "MatchQ[Plus[Times[Private`a, Private`b, Private`c, 4, Private`d, Private`e, Private`f], 2, Times[5, Private`k]], Plus[Times[4, BlankSequence[]], Times[5, Private`k]]]", "False"},
		{"ex", "MatchQ[Power[Times[Private`a, Private`b, Private`c], Private`e], Power[BlankSequence[], Private`e]]", "True"},
		{"ex", "MatchQ[Power[Times[Private`a, Private`b, Private`c], Private`e], Plus[Power[BlankSequence[], Private`f], Power[BlankSequence[], Private`e]]]", "False"},
		{"ex", "MatchQ[Plus[Power[Times[Private`a, Private`b, Private`c], Private`e], Power[Times[Private`a, Private`b, Private`c], Private`f]], Plus[Power[BlankSequence[], Private`f], Power[BlankSequence[], Private`e]]]", "True"},
		{"ex", "MatchQ[Plus[Power[Times[Private`a, Private`b, Private`c], Private`e], Power[Plus[Private`a, Private`b, Private`c], Private`f]], Plus[Power[BlankSequence[], Private`f], Power[BlankSequence[], Private`e]]]", "True"},
		{"ex", "MatchQ[Plus[Power[Times[Private`a, Private`b, Private`c], Private`e], Power[Plus[Private`a, Private`b, Private`c], Private`f]], Plus[Power[Pattern[Private`amatch, BlankSequence[]], Private`f], Power[Pattern[Private`amatch, BlankSequence[]], Private`e]]]", "False"},
		{"ex", "MatchQ[Plus[Power[Times[Private`a, Private`b, Private`c], Private`e], Power[Times[Private`a, Private`b, Private`c], Private`f]], Plus[Power[Pattern[Private`amatch, BlankSequence[]], Private`f], Power[Pattern[Private`amatch, BlankSequence[]], Private`e]]]", "True"},
		{"ex", "MatchQ[Private`bar[1, Private`foo[Private`a, Private`b]], Private`bar[Pattern[Private`amatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]]]", "True"},
		{"ex", "MatchQ[Private`bar[1, Private`foo[Private`a, Private`b, Private`c]], Private`bar[Pattern[Private`amatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]]]", "True"},
		{"ex", "MatchQ[Private`bar[1, Private`foo[]], Private`bar[Pattern[Private`amatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]]]", "False"},
		{"ex", "ReplaceAll[Private`bar[1, Private`foo[Private`a, Private`b]], Rule[Private`bar[Pattern[Private`amatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]], 2]]", "2"},
		{"ex", "ReplaceAll[Plus[Private`bar[1, Private`foo[Private`a, Private`b]], Private`bar[5, Private`foo[Private`a, Private`b]]], Rule[Private`bar[Pattern[Private`amatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]], 2]]", "4"},
		{"ex", "ReplaceAll[Plus[Private`bar[1, Private`foo[Private`a, Private`b]], Private`bar[5, Private`foo[Private`a, Private`b]]], Rule[Private`bar[Pattern[Private`amatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]], Times[Private`amatch, Private`buzz[Private`cmatch]]]]", "Times[6, Private`buzz[Private`a, Private`b]]"},
		{"ex", "ReplaceAll[Plus[Private`bar[1, Private`foo[Private`a, Private`b]], Private`bar[2, Private`foo[Private`a, Private`b]]], Rule[Plus[Private`bar[Pattern[Private`amatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]], Private`bar[Pattern[Private`bmatch, Blank[Integer]], Private`foo[Pattern[Private`cmatch, BlankSequence[]]]]], Private`bar[Plus[Private`amatch, Private`bmatch], Private`foo[Private`cmatch]]]]", "Private`bar[3, Private`foo[Private`a, Private`b]]"},
		{"ex", "SetDelayed[Private`fooPlus[Plus[Pattern[Private`addends, BlankSequence[]]]], Hold[Private`addends]]", "Null"},
		{"ex", "SetDelayed[Private`fooList[{Pattern[Private`addends, BlankSequence[]]}], Hold[Private`addends]]", "Null"},
		{"ex", "SetDelayed[Private`fooBlank[Blank[][Pattern[Private`addends, BlankSequence[]]]], Hold[Private`addends]]", "Null"},
		{"ex", "Private`fooList[{Private`a, Private`b, Private`c}]", "Hold[Private`a, Private`b, Private`c]"},
		{"ex", "Private`fooBlank[Plus[Private`a, Private`b, Private`c]]", "Hold[Private`a, Private`b, Private`c]"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[BlankSequence[Integer]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[BlankSequence[Real]]]", "False"},
		{"ex", "MatchQ[Private`foo[1.], Private`foo[BlankSequence[Real]]]", "True"},
		{"ex", "MatchQ[Private`foo[], Private`foo[BlankSequence[Real]]]", "False"},
		{"ex", "MatchQ[Private`foo[1.], Private`foo[BlankSequence[]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, BlankSequence[Integer]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2, BlankSequence[Integer]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2, 3, BlankNullSequence[Integer]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2, 3, 4, BlankNullSequence[Integer]]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, BlankNullSequence[Integer], 3]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2, 3, Pattern[Private`a, BlankSequence[Integer]]]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, Pattern[Private`a, BlankSequence[Integer]], 3]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, Pattern[Private`a, BlankSequence[Integer]], 5]]", "False"},
	}},
	{"pattern", "BlankNullSequence", []docEx{
		{"ex", "MatchQ[Times[Private`a, Private`b], BlankNullSequence[]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Private`b, BlankNullSequence[]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Pattern[Private`x, BlankNullSequence[Symbol]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Pattern[Private`x, BlankNullSequence[Plus]]]]", "False"},
		{"ex", "MatchQ[Times[Private`a, Private`b], BlankNullSequence[]]", "True"},
		{"ex", "MatchQ[Private`a, Times[Private`a, BlankNullSequence[]]]", "False"},
		{"ex", "MatchQ[Private`a, Plus[Private`a, BlankNullSequence[]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Private`b, BlankNullSequence[]]]", "True"},
		{"ex", "MatchQ[Times[Private`a, Private`b], BlankNullSequence[Integer]]", "False"},
		{"ex", "MatchQ[Times[Private`a, Private`b], BlankNullSequence[Symbol]]", "False"},
		{"ex", "MatchQ[Private`a, BlankNullSequence[Symbol]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], BlankNullSequence[Symbol]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Pattern[Private`x, BlankNullSequence[Symbol]]]]", "True"},
		{"ex", "MatchQ[Plus[Private`a, Private`b, Private`c], Plus[Private`a, Pattern[Private`x, BlankNullSequence[Plus]]]]", "False"},
		{"ex", "MatchQ[Plus[Private`a, Private`b], Plus[Private`a, Private`b, Pattern[Private`x, BlankNullSequence[Symbol]]]]", "True"},
		{"ex", "MatchQ[Private`foo[1.], Private`foo[BlankNullSequence[]]]", "True"},
		{"ex", "MatchQ[Private`foo[1.], Private`foo[BlankNullSequence[Real]]]", "True"},
		{"ex", "MatchQ[Private`foo[1.], Private`foo[BlankNullSequence[Integer]]]", "False"},
		{"ex", "MatchQ[Private`foo[], Private`foo[BlankNullSequence[Integer]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2], Private`foo[1, 2, 3]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2, 3, BlankSequence[Integer]]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, BlankSequence[Integer], 3]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, BlankSequence[Integer], 5]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2, 3, Pattern[Private`a, BlankNullSequence[Integer]]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, 2, 3, 4, Pattern[Private`a, BlankNullSequence[Integer]]]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, Pattern[Private`a, BlankNullSequence[Integer]], 3]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, Pattern[Private`a, BlankSequence[Integer]], 3, Pattern[Private`b, BlankSequence[Integer]]]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[1, Pattern[Private`a, BlankSequence[Integer]], 3, Pattern[Private`b, BlankNullSequence[Integer]]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, 3, 4], Private`foo[1, Pattern[Private`a, BlankSequence[Integer]], 3, Pattern[Private`b, BlankNullSequence[Integer]], 4]]", "True"},
	}},
	{"pattern", "Except", []docEx{
		{"ex", "Cases[{5, 2, 3.5, Private`x, Private`y, 4}, Except[Blank[Real]]]", "{5, 2, Private`x, Private`y, 4}"},
		{"ex", "Cases[{5, 2, Power[Private`a, Private`b], Private`x, Private`y, 4}, Except[Power[Blank[Symbol], Blank[Symbol]]]]", "{5, 2, Private`x, Private`y, 4}"},
		{"ex", "ReplaceAll[{Private`a, Private`b, 0, 1, 2, Private`x, Private`y}, Rule[Except[0, Pattern[Private`a, Blank[Integer]]], Private`foo[Private`a]]]", "{Private`a, Private`b, 0, Private`foo[1], Private`foo[2], Private`x, Private`y}"},
	}},
	{"pattern", "PatternTest", []docEx{
		{"ex", "MatchQ[1, PatternTest[Blank[], NumberQ]]", "True"},
		{"ex", "MatchQ[Private`a, PatternTest[Blank[], NumberQ]]", "False"},
		{"ex", "MatchQ[1, PatternTest[1, NumberQ]]", "True"},
		{"ex", "MatchQ[1, PatternTest[1.5, NumberQ]]", "False"},
		{"ex", "MatchQ[1.5, PatternTest[1.5, NumberQ]]", "True"},
		{"ex", "Cases[{5, 2, Power[Private`a, Private`b], Private`x, Private`y, 4.5}, PatternTest[Blank[], NumberQ]]", "{5, 2, 4.5}"},
	}},
	{"pattern", "Condition", []docEx{
		{"ex", "MatchQ[5, Condition[Blank[], True]]", "True"},
		{"ex", "MatchQ[5, Condition[Blank[], False]]", "False"},
		{"ex", "MatchQ[5, Condition[Pattern[Private`y, Blank[]], True]]", "True"},
		{"ex", "MatchQ[5, Condition[Pattern[Private`y, Blank[Real]], True]]", "False"},
		{"ex", "MatchQ[5, Condition[Pattern[Private`y, Blank[Integer]], True]]", "True"},
		{"ex", "MatchQ[5, Condition[Pattern[Private`y, Blank[]], Equal[Private`y, 0]]]", "False"},
		{"ex", "MatchQ[5, Condition[Pattern[Private`y, Blank[]], Equal[Private`y, 5]]]", "True"},
		{"ex", "ReplaceRepeated[{3, 5, 2, 1}, Rule[Condition[{Pattern[Private`x, BlankNullSequence[]], Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]], Pattern[Private`k, BlankNullSequence[]]}, Equal[Order[Private`y, Private`z], (-1)]], {Private`x, Private`z, Private`y, Private`k}]]", "{1, 2, 3, 5}"},
		{"ex", "Replace[1, RuleDelayed[Pattern[Private`a, Blank[Integer]], Condition[Private`myfn[Private`a], Greater[Private`a, 0]]]]", "Private`myfn[1]"},
		{"ex", "Replace[(-1), RuleDelayed[Pattern[Private`a, Blank[Integer]], Condition[Private`myfn[Private`a], Greater[Private`a, 0]]]]", "(-1)"},
		{"ex", "Replace[Private`foo[2, 3], RuleDelayed[Private`foo[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]], Condition[With[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]], Equal[Private`y, 3]]]]", "4"},
		{"ex", "Replace[Private`foo[3, 3], RuleDelayed[Private`foo[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]], Condition[With[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]], Equal[Private`y, 3]]]]", "Private`foo[3, 3]"},
		{"ex", "Replace[Private`foo[2, 4], RuleDelayed[Private`foo[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]], Condition[With[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]], Equal[Private`y, 3]]]]", "Private`foo[2, 4]"},
		{"ex", "Replace[Private`bar[2], RuleDelayed[Private`bar[Pattern[Private`x, Blank[]]], With[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]]]]", "4"},
		{"ex", "Replace[Private`bar[3], RuleDelayed[Private`bar[Pattern[Private`x, Blank[]]], With[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]]]]", "Private`bar[3]"},
		{"ex", "Replace[Private`foo[2, 3], RuleDelayed[Private`foo[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]], Condition[Module[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]], Equal[Private`y, 3]]]]", "4"},
		{"ex", "Replace[Private`foo[3, 3], RuleDelayed[Private`foo[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]], Condition[Module[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]], Equal[Private`y, 3]]]]", "Private`foo[3, 3]"},
		{"ex", "Replace[Private`foo[2, 4], RuleDelayed[Private`foo[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]], Condition[Module[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]], Equal[Private`y, 3]]]]", "Private`foo[2, 4]"},
		{"ex", "Replace[Private`bar[2], RuleDelayed[Private`bar[Pattern[Private`x, Blank[]]], Module[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]]]]", "4"},
		{"ex", "Replace[Private`bar[3], RuleDelayed[Private`bar[Pattern[Private`x, Blank[]]], Module[{Set[Private`a, Private`x]}, Condition[Power[Private`x, 2], Equal[Private`a, 2]]]]]", "Private`bar[3]"},
		{"ex", "Replace[2, RuleDelayed[Pattern[Private`x, Blank[]], Condition[Condition[Condition[Power[Private`x, 2], Equal[Private`x, 2]], Equal[Private`x, 2]], Equal[Private`x, 2]]]]", "4"},
		{"ex", "Replace[3, RuleDelayed[Pattern[Private`x, Blank[]], Condition[Condition[Condition[Power[Private`x, 2], Equal[Private`x, 2]], Equal[Private`x, 2]], Equal[Private`x, 2]]]]", "3"},
	}},
	{"pattern", "Alternatives", []docEx{
		{"ex", "Alternatives[Private`c, Private`d]", "Alternatives[Private`c, Private`d]"},
		{"ex", "MatchQ[Private`b, Alternatives[Private`c, Private`d]]", "False"},
		{"ex", "MatchQ[Private`c, Alternatives[Private`c, Private`d]]", "True"},
		{"ex", "MatchQ[Private`d, Alternatives[Private`c, Private`d]]", "True"},
		{"ex", "Cases[{Private`a, Private`b, Private`c, 1, 2}, Alternatives[Private`c, Blank[Integer]]]", "{Private`c, 1, 2}"},
		{"ex", "ReplaceAll[{Private`a, Private`b, Private`c, 1., 2}, Rule[Alternatives[Pattern[Private`amatch, Blank[Symbol]], Pattern[Private`amatch, Blank[Integer]]], Plus[Private`amatch, 1]]]", "Plus[1, List][Plus[1, Private`a], Plus[1, Private`b], Plus[1, Private`c], 1., 3]"},
		{"ex", "Cases[{Private`a, Private`b, Private`c, Private`d, Private`e, Private`f}, Alternatives[Private`b, Private`c, Private`d, Private`e]]", "{Private`b, Private`c, Private`d, Private`e}"},
		{"ex", "MatchQ[{Private`a, Private`b}, {Pattern[Private`a, Blank[]], Alternatives[Private`k, Pattern[Private`a, Blank[]]]}]", "False"},
		{"ex", "MatchQ[Or[Private`c, Private`a, Not[Private`b]], Or[BlankNullSequence[], Pattern[Private`a, Blank[]], BlankNullSequence[], Not[Alternatives[And[BlankNullSequence[], Pattern[Private`a, Blank[]], BlankNullSequence[]], Pattern[Private`a, Blank[]]]], BlankNullSequence[]]]", "False"},
	}},
	{"pattern", "FreeQ", []docEx{
		{"ex", "FreeQ[{0, 1, 2}, 1]", "False"},
		{"ex", "FreeQ[{0, 1, 2}, 3]", "True"},
		{"ex", "FreeQ[{0, 1, 2}, Blank[Integer]]", "False"},
		{"ex", "FreeQ[{0, 1, 2}, Blank[Real]]", "True"},
		{"ex", "FreeQ[Power[Private`x, 2], Blank[Real]]", "True"},
		{"ex", "FreeQ[Power[Private`x, 2], Blank[Integer]]", "False"},
		{"ex", "FreeQ[Power[Private`x, 2], 2]", "False"},
		{"ex", "FreeQ[Power[Private`x, 2], 3]", "True"},
		{"ex", "FreeQ[Power[Private`x, 2], Private`y]", "True"},
		{"ex", "FreeQ[Power[Private`x, 2], Private`y]", "True"},
		{"ex", "FreeQ[Power[Private`x, 2], Power[Private`x, Blank[Integer]]]", "False"},
		{"ex", "FreeQ[Power[Private`x, 2], Power[Private`y, Blank[Integer]]]", "True"},
		{"ex", "FreeQ[Times[5, Private`foo[Private`x]], Private`foo]", "False"},
		{"ex", "FreeQ[Times[5, Private`foo[Private`x]], Private`bar]", "True"},
	}},
	{"pattern", "ReplaceList", []docEx{
		{"ex", "ReplaceList[Plus[Private`a, Private`b], Rule[Plus[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]], {Private`x, Private`y}]]", "{{Private`a, Private`b}, {Private`b, Private`a}}"},
		{"ex", "ReplaceList[Private`foo[Plus[Private`a, Private`b], Private`b], Rule[Private`foo[Plus[Pattern[Private`j, Blank[]], Pattern[Private`k, Blank[]]], Pattern[Private`j, Blank[]]], {Private`j, Private`k}]]", "{{Private`b, Private`a}}"},
		{"ex", "ReplaceList[Private`foo[Plus[Private`a, Private`b]], Rule[Private`foo[Plus[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]]], {Private`x, Private`y}]]", "{{Private`a, Private`b}, {Private`b, Private`a}}"},
		{"ex", "ReplaceList[Private`bar[Plus[Private`foo[Plus[Private`a, Private`b]], Private`c]], Rule[Private`bar[Plus[Private`foo[Plus[Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]]]], Pattern[Private`z, Blank[]]]], {Private`x, Private`y, Private`z}]]", "{{Private`a, Private`b, Private`c}, {Private`b, Private`a, Private`c}}"},
		{"ex", "ReplaceList[Private`bar[Plus[Private`foo[Plus[Private`a, Private`b]], Private`c, Private`d]], Rule[Private`bar[Plus[Pattern[Private`w, Blank[]], Pattern[Private`x, Blank[]], Private`foo[Plus[Pattern[Private`y, Blank[]], Pattern[Private`z, Blank[]]]]]], {Private`w, Private`x, Private`y, Private`z}]]", "{{Private`c, Private`d, Private`a, Private`b}, {Private`c, Private`d, Private`b, Private`a}, {Private`d, Private`c, Private`a, Private`b}, {Private`d, Private`c, Private`b, Private`a}}"},
		{"ex", "ReplaceList[Private`foo[Plus[Private`a, Private`b], Private`c], Rule[Private`foo[Plus[Pattern[Private`j, Blank[]], Pattern[Private`k, Blank[]]], Pattern[Private`j, Blank[]]], {Private`j, Private`k}]]", "{}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b], Rule[Plus[Pattern[Private`x, BlankSequence[]], Pattern[Private`y, BlankSequence[]]], {{Private`x}, {Private`y}}]]", "{{{Private`a}, {Private`b}}, {{Private`b}, {Private`a}}}"},
		{"ex", "ReplaceList[Private`foo[Private`a, Private`b], Rule[Private`foo[Pattern[Private`a, BlankNullSequence[]], Pattern[Private`b, BlankNullSequence[]]], {{Private`a}, {Private`b}}]]", "{{{}, {Private`a, Private`b}}, {{Private`a}, {Private`b}}, {{Private`a, Private`b}, {}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, Private`c], Rule[ExpreduceOrderlessFn[Pattern[Private`a, Repeated[Pattern[Private`b, Blank[]], {2}]], Pattern[Private`rest, BlankNullSequence[]]], {{Private`a}, {Private`rest}}]]", "{}"},
		{"ex", "ReplaceList[Private`foo[Private`a, Private`b, Private`c], Rule[Private`foo[BlankNullSequence[], Pattern[Private`a, Blank[]]], {Private`a}]]", "{{Private`c}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c], Rule[Pattern[Private`a, Blank[]], {Private`a}]]", "{{Plus[Private`a, Private`b, Private`c]}}"},
		{"ex", "ReplaceList[Private`foo[Private`a, Private`b, Private`foo[Private`b, Private`c]], Rule[Private`foo[Pattern[Private`a, BlankNullSequence[]], Pattern[Private`b, BlankNullSequence[]], Private`foo[Pattern[Private`c, BlankNullSequence[]], Pattern[Private`d, BlankNullSequence[]]]], {{Private`a}, {Private`b}, {Private`c}, {Private`d}}]]", "{{{}, {Private`a, Private`b}, {}, {Private`b, Private`c}}, {{}, {Private`a, Private`b}, {Private`b}, {Private`c}}, {{}, {Private`a, Private`b}, {Private`b, Private`c}, {}}, {{Private`a}, {Private`b}, {}, {Private`b, Private`c}}, {{Private`a}, {Private`b}, {Private`b}, {Private`c}}, {{Private`a}, {Private`b}, {Private`b, Private`c}, {}}, {{Private`a, Private`b}, {}, {}, {Private`b, Private`c}}, {{Private`a, Private`b}, {}, {Private`b}, {Private`c}}, {{Private`a, Private`b}, {}, {Private`b, Private`c}, {}}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c], Rule[Plus[BlankNullSequence[], Pattern[Private`a, Blank[]]], {Private`a}]]", "{{Plus[Private`a, Private`b, Private`c]}, {Plus[Private`b, Private`c]}, {Plus[Private`a, Private`c]}, {Plus[Private`a, Private`b]}, {Private`c}, {Private`b}, {Private`a}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b], Rule[Plus[Pattern[Private`x, BlankNullSequence[]], Pattern[Private`y, BlankNullSequence[]]], {{Private`x}, {Private`y}}]]", "{{{}, {Private`a, Private`b}}, {{Private`a}, {Private`b}}, {{Private`b}, {Private`a}}, {{Private`a, Private`b}, {}}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c], Rule[Plus[Pattern[Private`a, Blank[]], Pattern[Private`b, Blank[]]], {{Private`a}, {Private`b}}]]", "{{{Private`a}, {Plus[Private`b, Private`c]}}, {{Private`b}, {Plus[Private`a, Private`c]}}, {{Private`c}, {Plus[Private`a, Private`b]}}, {{Plus[Private`a, Private`b]}, {Private`c}}, {{Plus[Private`a, Private`c]}, {Private`b}}, {{Plus[Private`b, Private`c]}, {Private`a}}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c], Rule[Plus[Pattern[Private`a, BlankSequence[]], Pattern[Private`b, BlankSequence[]]], {{Private`a}, {Private`b}}]]", "{{{Private`a}, {Private`b, Private`c}}, {{Private`b}, {Private`a, Private`c}}, {{Private`c}, {Private`a, Private`b}}, {{Private`a, Private`b}, {Private`c}}, {{Private`a, Private`c}, {Private`b}}, {{Private`b, Private`c}, {Private`a}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, Private`c], Rule[ExpreduceOrderlessFn[Pattern[Private`a, BlankSequence[]], Pattern[Private`b, BlankSequence[]]], {{Private`a}, {Private`b}}]]", "{{{Private`a}, {Private`b, Private`c}}, {{Private`b}, {Private`a, Private`c}}, {{Private`c}, {Private`a, Private`b}}, {{Private`a, Private`b}, {Private`c}}, {{Private`a, Private`c}, {Private`b}}, {{Private`b, Private`c}, {Private`a}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, Private`c], Rule[ExpreduceOrderlessFn[Pattern[Private`a, Repeated[Blank[], {2}]], Pattern[Private`rest, BlankNullSequence[]]], {{Private`a}, {Private`rest}}]]", "{{{Private`a, Private`b}, {Private`c}}, {{Private`a, Private`c}, {Private`b}}, {{Private`b, Private`c}, {Private`a}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, Private`c], Rule[ExpreduceOrderlessFn[Pattern[Private`a, Repeated[Blank[], {2}]], Pattern[Private`rest, BlankNullSequence[]]], {{Private`a}, {Private`rest}}]]", "{{{Private`a, Private`b}, {Private`c}}, {{Private`a, Private`c}, {Private`b}}, {{Private`b, Private`c}, {Private`a}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, Private`c, Private`d], Rule[ExpreduceOrderlessFn[Pattern[Private`a, Repeated[Blank[], {2}]], Pattern[Private`rest, BlankNullSequence[]]], {{Private`a}, {Private`rest}}]]", "{{{Private`a, Private`b}, {Private`c, Private`d}}, {{Private`a, Private`c}, {Private`b, Private`d}}, {{Private`a, Private`d}, {Private`b, Private`c}}, {{Private`b, Private`c}, {Private`a, Private`d}}, {{Private`b, Private`d}, {Private`a, Private`c}}, {{Private`c, Private`d}, {Private`a, Private`b}}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c], Rule[Plus[BlankNullSequence[], Pattern[Private`a, Blank[]]], {Private`a}]]", "{{Plus[Private`a, Private`b, Private`c]}, {Plus[Private`b, Private`c]}, {Plus[Private`a, Private`c]}, {Plus[Private`a, Private`b]}, {Private`c}, {Private`b}, {Private`a}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b], Rule[ExpreduceOrderlessFn[Pattern[Private`a, BlankNullSequence[]], Pattern[Private`b, BlankNullSequence[]]], {{Private`a}, {Private`b}}]]", "{{{}, {Private`a, Private`b}}, {{Private`a}, {Private`b}}, {{Private`b}, {Private`a}}, {{Private`a, Private`b}, {}}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c], Rule[Plus[Pattern[Private`a, Blank[]], Pattern[Private`b, Blank[]], Pattern[Private`rest, BlankNullSequence[]]], {{Private`a}, {Private`b}, {Private`rest}}]]", "{{{Private`a}, {Private`b}, {Private`c}}, {{Private`a}, {Private`c}, {Private`b}}, {{Private`b}, {Private`a}, {Private`c}}, {{Private`b}, {Private`c}, {Private`a}}, {{Private`c}, {Private`a}, {Private`b}}, {{Private`c}, {Private`b}, {Private`a}}, {{Private`a}, {Plus[Private`b, Private`c]}, {}}, {{Private`b}, {Plus[Private`a, Private`c]}, {}}, {{Private`c}, {Plus[Private`a, Private`b]}, {}}, {{Plus[Private`a, Private`b]}, {Private`c}, {}}, {{Plus[Private`a, Private`c]}, {Private`b}, {}}, {{Plus[Private`b, Private`c]}, {Private`a}, {}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, Private`c], Rule[ExpreduceOrderlessFn[Pattern[Private`a, BlankNullSequence[]], Pattern[Private`b, BlankNullSequence[]]], {{Private`a}, {Private`b}}]]", "{{{}, {Private`a, Private`b, Private`c}}, {{Private`a}, {Private`b, Private`c}}, {{Private`b}, {Private`a, Private`c}}, {{Private`c}, {Private`a, Private`b}}, {{Private`a, Private`b}, {Private`c}}, {{Private`a, Private`c}, {Private`b}}, {{Private`b, Private`c}, {Private`a}}, {{Private`a, Private`b, Private`c}, {}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`a, Private`b, Private`b, Private`c], Rule[ExpreduceOrderlessFn[Pattern[Private`a, Repeated[Pattern[Private`b, Blank[]], {2}]], Pattern[Private`rest, BlankNullSequence[]]], {{Private`a}, {Private`rest}}]]", "{{{Private`a, Private`a}, {Private`b, Private`b, Private`c}}, {{Private`b, Private`b}, {Private`a, Private`a, Private`c}}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, Private`c], Rule[ExpreduceOrderlessFn[Pattern[Private`a, BlankNullSequence[]], Pattern[Private`rest, BlankNullSequence[]]], {Private`rest}]]", "{{Private`a, Private`b, Private`c}, {Private`b, Private`c}, {Private`a, Private`c}, {Private`a, Private`b}, {Private`c}, {Private`b}, {Private`a}, {}}"},
		{"ex", "ReplaceList[ExpreduceOrderlessFn[Private`a, Private`b, ExpreduceOrderlessFn[Private`c, Private`d]], Rule[ExpreduceOrderlessFn[Pattern[Private`a, BlankNullSequence[]], Pattern[Private`b, BlankNullSequence[]], ExpreduceOrderlessFn[Pattern[Private`c, BlankNullSequence[]], Pattern[Private`d, BlankNullSequence[]]]], {{Private`a}, {Private`b}, {Private`c}, {Private`d}}]]", "{{{}, {Private`a, Private`b}, {}, {Private`c, Private`d}}, {{}, {Private`a, Private`b}, {Private`c}, {Private`d}}, {{}, {Private`a, Private`b}, {Private`d}, {Private`c}}, {{}, {Private`a, Private`b}, {Private`c, Private`d}, {}}, {{Private`a}, {Private`b}, {}, {Private`c, Private`d}}, {{Private`a}, {Private`b}, {Private`c}, {Private`d}}, {{Private`a}, {Private`b}, {Private`d}, {Private`c}}, {{Private`a}, {Private`b}, {Private`c, Private`d}, {}}, {{Private`b}, {Private`a}, {}, {Private`c, Private`d}}, {{Private`b}, {Private`a}, {Private`c}, {Private`d}}, {{Private`b}, {Private`a}, {Private`d}, {Private`c}}, {{Private`b}, {Private`a}, {Private`c, Private`d}, {}}, {{Private`a, Private`b}, {}, {}, {Private`c, Private`d}}, {{Private`a, Private`b}, {}, {Private`c}, {Private`d}}, {{Private`a, Private`b}, {}, {Private`d}, {Private`c}}, {{Private`a, Private`b}, {}, {Private`c, Private`d}, {}}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c], Rule[Plus[BlankNullSequence[], Pattern[Private`a, Blank[]], BlankNullSequence[]], {Private`a}]]", "{}"},
		{"ex", "ReplaceList[ExpreduceFlOrOiFn[2, Private`x, Private`y], Rule[ExpreduceFlOrOiFn[Pattern[Private`c, Blank[Integer]], Pattern[Private`e, BlankSequence[]]], {{Private`c}, {Private`e}}]]", "{{{2}, {Private`x, Private`y}}}"},
		{"ex", "ReplaceList[ExpreduceFlOrOiFn[2, Private`x, Private`y], Rule[ExpreduceFlOrOiFn[PatternTest[Pattern[Private`c, Blank[]], NumberQ], Pattern[Private`e, BlankSequence[]]], {{Private`c}, {Private`e}}]]", "{{{2}, {Private`x, Private`y}}}"},
	}},
	{"pattern", "Repeated", []docEx{
		{"ex", "MatchQ[Private`foo[Private`a, Private`a], Private`foo[Repeated[Private`a]]]", "True"},
		{"ex", "MatchQ[Private`foo[Private`a, Private`b], Private`foo[Repeated[Private`a]]]", "False"},
		{"ex", "MatchQ[Private`foo[Private`a], Private`foo[Repeated[Private`a]]]", "True"},
		{"ex", "MatchQ[Private`foo[], Private`foo[Repeated[Private`a]]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2, 3], Private`foo[Repeated[Blank[Integer]]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2, Private`a], Private`foo[Repeated[Blank[Integer]]]]", "False"},
		{"ex", "ReplaceAll[Private`foo[1, 2, 3], Rule[Private`foo[Pattern[Private`a, Repeated[Blank[Integer]]]], 2]]", "2"},
		{"ex", "ReplaceAll[Private`foo[1, 2, 3], Rule[Private`foo[Pattern[Private`a, Repeated[Blank[Integer]]]], Private`matches[Private`a]]]", "Private`matches[1, 2, 3]"},
		{"ex", "ReplaceAll[Private`foo[1, 2, 3], Rule[Private`foo[Pattern[Private`a, Repeated[Pattern[Private`k, Blank[Integer]]]]], Private`matches[Private`a]]]", "Private`foo[1, 2, 3]"},
		{"ex", "ReplaceAll[Private`foo[1, 1, 1], Rule[Private`foo[Pattern[Private`a, Repeated[Pattern[Private`k, Blank[Integer]]]]], Private`matches[Private`a]]]", "Private`matches[1, 1, 1]"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, Private`b, Private`b, Private`b], ExpreduceFlOrOiFn[Private`a, Repeated[Private`b, {3}]]]", "True"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, Private`b, Private`b, Private`b], ExpreduceFlOrOiFn[Private`a, Repeated[Private`b, {Private`a}]]]", "False"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, Private`b, Private`b, Private`b], ExpreduceFlOrOiFn[Private`a, Repeated[Private`b, {4}]]]", "False"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, Private`b, Private`b, Private`b], ExpreduceFlOrOiFn[Private`a, Repeated[Private`b, {2}]]]", "False"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, Private`b, Private`b, Private`b], ExpreduceFlOrOiFn[Private`a, Repeated[Blank[Integer], {2}]]]", "False"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, 1, 2], ExpreduceFlOrOiFn[Private`a, Repeated[Blank[Integer], {2}]]]", "True"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, 1, 2], ExpreduceFlOrOiFn[Private`a, Repeated[Pattern[Private`k, Blank[Integer]], {2}]]]", "False"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, 2, 2], ExpreduceFlOrOiFn[Private`a, Repeated[Pattern[Private`k, Blank[Integer]], {2}]]]", "True"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, Private`b, Private`b, Private`b], ExpreduceFlOrOiFn[BlankNullSequence[], Repeated[Blank[Integer], {0}]]]", "True"},
		{"ex", "MatchQ[ExpreduceFlOrOiFn[Private`a, Private`b, Private`b, Private`b], ExpreduceFlOrOiFn[BlankNullSequence[], Repeated[Blank[Integer], {(-1)}]]]", "False"},
		{"ex", "ReplaceAll[Private`foo[Private`x, Private`x], Rule[Private`foo[Repeated[Pattern[Private`a, Blank[]], {2}]], Private`a]]", "Private`x"},
	}},
	{"pattern", "Optional", []docEx{
		{"ex", "ReplaceAll[Private`foo[Private`a], Rule[Private`foo[Private`a, Optional[Pattern[Private`b, Blank[]]]], {Private`a, Private`b}]]", "Private`foo[Private`a]"},
		{"ex", "ReplaceAll[Private`foo[Private`a, Private`b], Rule[Private`foo[Private`a, Optional[Pattern[Private`b, Blank[]]]], {Private`a, Private`b}]]", "{Private`a, Private`b}"},
		{"ex", "ReplaceAll[Private`foo[Private`a], Rule[Private`foo[Private`a, Optional[Pattern[Private`b, Blank[]], Private`c]], {Private`a, Private`b}]]", "{Private`a, Private`c}"},
		{"ex", "ReplaceAll[Private`foo[Private`a, Private`b], Rule[Private`foo[Private`a, Optional[Pattern[Private`b, Blank[]], Private`c]], {Private`a, Private`b}]]", "{Private`a, Private`b}"},
		{"ex", "ReplaceAll[Private`foo[Private`a, Private`b], Rule[Private`foo[Pattern[Private`a, BlankNullSequence[]], Optional[Pattern[Private`b, Blank[]]]], {{Private`a}, {Private`b}}]]", "{{Private`a}, {Private`b}}"},
		{"ex", "ReplaceAll[Private`foo[Private`a, Private`b], Rule[Private`foo[Pattern[Private`a, BlankNullSequence[]], Optional[Pattern[Private`b, Blank[]], Private`c]], {{Private`a}, {Private`b}}]]", "{{Private`a}, {Private`b}}"},
		{"ex", "ReplaceAll[Private`foo[Private`a, Private`b], Rule[Private`foo[Pattern[Private`a, BlankNullSequence[]], Optional[Pattern[Private`b, Blank[]], Private`c], Optional[Pattern[Private`d, Blank[]], Private`e]], {{Private`a}, {Private`b}, {Private`d}}]]", "{{}, {Private`a}, {Private`b}}"},
		{"ex", "ReplaceAll[Private`foo[Private`x], Rule[Private`foo[Pattern[Private`a, Blank[]], Optional[Pattern[Private`b, Blank[]], Private`y], Optional[Pattern[Private`c, Blank[]], Private`z]], {{Private`a}, {Private`b}, {Private`c}}]]", "{{Private`x}, {Private`y}, {Private`z}}"},
		{"ex", "ReplaceAll[Private`foo[], Rule[Private`foo[Pattern[Private`a, Blank[]], Optional[Pattern[Private`b, Blank[]], Private`y], Optional[Pattern[Private`c, Blank[]], Private`z]], {{Private`a}, {Private`b}, {Private`c}}]]", "Private`foo[]"},
		{"ex", "ReplaceAll[Private`foo[Private`x, Private`i, Private`j], Rule[Private`foo[Pattern[Private`a, Blank[]], Optional[Pattern[Private`b, Blank[]], Private`y], Optional[Pattern[Private`c, Blank[]], Private`z]], {{Private`a}, {Private`b}, {Private`c}}]]", "{{Private`x}, {Private`i}, {Private`j}}"},
		{"ex", "ReplaceAll[Private`a, Rule[Private`foo[Private`a, Optional[Pattern[Private`c, Blank[]]]], {{Private`c}}]]", "Private`a"},
		{"ex", "ReplaceAll[Private`a, Rule[Plus[Private`a, Optional[Pattern[Private`c, Blank[]]]], {{Private`c}}]]", "{{0}}"},
		{"ex", "MatchQ[Private`a, Private`foo[Private`a, Optional[Pattern[Private`c, Blank[]]]]]", "False"},
		{"ex", "MatchQ[Private`a, Plus[Private`a, Optional[Pattern[Private`c, Blank[]]]]]", "True"},
		{"ex", "MatchQ[Private`foo[Private`a], Plus[Private`a, Optional[Pattern[Private`c, Blank[]]]]]", "False"},
		{"ex", "ReplaceAll[Private`a, Rule[Plus[Private`a, Optional[Pattern[Private`c, Blank[]]], Optional[Pattern[Private`d, Blank[]]]], {{Private`c}, {Private`d}}]]", "{{0}, {0}}"},
		{"ex", "ReplaceAll[Cos[Private`x], Rule[Plus[Blank[], Optional[Pattern[Private`c, Blank[]]], Optional[Pattern[Private`d, Blank[]]]], {{Private`c}, {Private`d}}]]", "{{0}, {0}}"},
		{"ex", "ReplaceAll[Times[5, Private`a], Rule[Times[Optional[PatternTest[Pattern[Private`c1, Blank[]], NumberQ]], Pattern[Private`a, Blank[]]], {{Private`c1}, {Private`a}}]]", "{{5}, {Private`a}}"},
		{"ex", "ReplaceAll[Private`a, Rule[Times[Optional[PatternTest[Pattern[Private`c1, Blank[]], NumberQ]], Pattern[Private`a, Blank[]]], {{Private`c1}, {Private`a}}]]", "{{1}, {Private`a}}"},
		{"ex", "MatchQ[Private`foo[Private`a, Private`b], Private`foo[PatternTest[Pattern[Private`c1, BlankSequence[]], NumberQ]]]", "False"},
		{"ex", "MatchQ[Private`foo[1, 2], Private`foo[PatternTest[Pattern[Private`c1, BlankSequence[]], NumberQ]]]", "True"},
		{"ex", "MatchQ[Private`foo[1, 2], Private`foo[Optional[PatternTest[Pattern[Private`c1, BlankSequence[]], NumberQ]]]]", "False"},
		{"ex", "MatchQ[Private`foo[1], Private`foo[Optional[PatternTest[Pattern[Private`c1, BlankSequence[]], NumberQ]]]]", "True"},
		{"ex", "ReplaceList[{Private`a, Private`b, Private`c}, Rule[{Optional[Pattern[Private`a, Blank[]], 5], Pattern[Private`b, BlankSequence[]]}, {{Private`a}, {Private`b}}]]", "{{{Private`a}, {Private`b, Private`c}}, {{5}, {Private`a, Private`b, Private`c}}}"},
		{"ex", "ReplaceList[{Private`a, Private`b, Private`c}, Rule[{Optional[Pattern[Private`a, Blank[]], 5], Optional[Pattern[Private`b, Blank[]], 6], Pattern[Private`c, BlankNullSequence[]]}, {{Private`a}, {Private`b}, {Private`c}}]]", "{{{Private`a}, {Private`b}, {Private`c}}, {{Private`a}, {6}, {Private`b, Private`c}}, {{5}, {Private`a}, {Private`b, Private`c}}, {{5}, {6}, {Private`a, Private`b, Private`c}}}"},
		{"ex", "MatchQ[Times[Private`x, (-1)], Optional[Pattern[Private`p, Blank[]]]]", "True"},
		{"ex", "MatchQ[Times[Private`x, (-1), Private`a], Times[Optional[Pattern[Private`p, Blank[]]], Private`a]]", "True"},
		{"ex", "MatchQ[BlankSequence[], Times[Optional[1], Pattern[Private`a, Blank[]]]]", "True"},
		{"ex", "MatchQ[Power[Private`x, Private`x], Power[Private`x, Optional[Pattern[Private`exp, Blank[]]]]]", "True"},
	}},
	{"pattern", "Verbatim", []docEx{
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Verbatim[Plus][BlankNullSequence[], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], BlankNullSequence[]], {Private`x, Private`y}]]", "{{Private`a, Private`b}, {Private`b, Private`c}, {Private`c, Private`d}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b, Private`c, Private`d], Rule[Verbatim[Times][BlankNullSequence[], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], BlankNullSequence[]], {Private`x, Private`y}]]", "{}"},
		{"ex", "ReplaceList[Plus[Private`a, Times[Private`b, Private`c], Private`d], Rule[Verbatim[Times][BlankNullSequence[], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], BlankNullSequence[]], {Private`x, Private`y}]]", "{}"},
		{"ex", "ReplaceList[Private`foo[Private`a, Private`b, Private`c, Private`d], Rule[Verbatim[Private`foo][BlankNullSequence[], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], BlankNullSequence[]], {Private`x, Private`y}]]", "{{Private`a, Private`b}, {Private`b, Private`c}, {Private`c, Private`d}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b][Private`a, Private`b, Private`c, Private`d], Rule[Verbatim[Plus[Private`a, Private`b]][BlankNullSequence[], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], BlankNullSequence[]], {Private`x, Private`y}]]", "{{Private`a, Private`b}, {Private`b, Private`c}, {Private`c, Private`d}}"},
		{"ex", "ReplaceList[Plus[Private`a, Private`b][Private`a, Private`b, Private`c, Private`d], Rule[Verbatim[Plus[Private`a, Blank[]]][BlankNullSequence[], Pattern[Private`x, Blank[]], Pattern[Private`y, Blank[]], BlankNullSequence[]], {Private`x, Private`y}]]", "{}"},
	}},
	{"pattern", "HoldPattern", []docEx{
		{"ex", "MatchQ[Plus[Times[2, Private`x], Times[2, Private`y]], Plus[Times[2, Blank[]], Times[2, Blank[]]]]", "False"},
		{"ex", "MatchQ[Plus[Times[2, Private`x], Times[2, Private`y]], HoldPattern[Plus[Times[2, Blank[]], Times[2, Blank[]]]]]", "True"},
		{"ex", "MatchQ[Plus[Times[2, Private`x], Times[2, Private`y]], HoldPattern[Plus[Times[2, Blank[]], HoldPattern[Times[2, Blank[]]]]]]", "True"},
	}},
	{"boolean", "And", []docEx{
		{"ex", "And[True, False]", "False"},
		{"ex", "And[True, True, True]", "True"},
		{"ex", "And[]", "True"},
		{"ex", "And[1, True, True]", "1"},
		{"ex", "And[True, False]", "False"},
		{"ex", "And[False, True]", "False"},
		{"ex", "And[True, True]", "True"},
		{"ex", "And[False, 1]", "False"},
		{"ex", "And[1, False]", "False"},
		{"ex", "And[1, 1]", "And[1, 1]"},
		{"ex", "And[1, 1, Private`kfdkkfd]", "And[1, 1, Private`kfdkkfd]"},
		{"ex", "And[1, 1, True, Private`kfdkkfd]", "And[1, 1, Private`kfdkkfd]"},
		{"ex", "And[1, 1, True, False, Private`kfdkkfd]", "False"},
	}},
	{"boolean", "Or", []docEx{
		{"ex", "Or[True, False]", "True"},
		{"ex", "Or[False, False, False]", "False"},
		{"ex", "Or[Private`a, Private`b]", "Or[Private`a, Private`b]"},
		{"ex", "Or[Private`a, True, Private`b]", "True"},
		{"ex", "Or[Private`a, True, False]", "True"},
		{"ex", "Or[Private`a, Private`b, False]", "Or[Private`a, Private`b]"},
		{"ex", "Or[Private`a, Private`b, False, False]", "Or[Private`a, Private`b]"},
		{"ex", "Or[Private`a, False, Private`b, False, False]", "Or[Private`a, Private`b]"},
		{"ex", "Or[True, False]", "True"},
		{"ex", "Or[False, False]", "False"},
		{"ex", "Or[False]", "False"},
		{"ex", "Or[]", "False"},
	}},
	{"boolean", "Not", []docEx{
		{"ex", "Not[True]", "False"},
		{"ex", "Not[False]", "True"},
		{"ex", "Not[Private`a]", "Not[Private`a]"},
		{"ex", "Not[Not[Private`a]]", "Private`a"},
	}},
	{"boolean", "TrueQ", []docEx{
		{"ex", "TrueQ[True]", "True"},
		{"ex", "TrueQ[False]", "False"},
		{"ex", "TrueQ[1]", "False"},
	}},
	{"boolean", "BooleanQ", []docEx{
		{"ex", "BooleanQ[True]", "True"},
		{"ex", "BooleanQ[False]", "True"},
		{"ex", "BooleanQ[1]", "False"},
	}},
	{"boolean", "AllTrue", []docEx{
		{"ex", "AllTrue[{1, Private`a}, NumberQ]", "False"},
		{"ex", "AllTrue[{1, 2}, NumberQ]", "True"},
	}},
	{"boolean", "Boole", []docEx{
		{"ex", "Boole[True]", "1"},
		{"ex", "Boole[False]", "0"},
		{"ex", "Boole[1]", "Boole[1]"},
		{"ex", "Boole[Private`a]", "Boole[Private`a]"},
		{"ex", "Boole[False, False]", "Boole[False, False]"},
	}},
	{"simplify", "Simplify", []docEx{
		{"ex", "Simplify[And[Private`b, Private`b]]", "Private`b"},
		{"ex", "Simplify[And[Private`a, Private`b, Not[Private`b]]]", "False"},
		{"ex", "Simplify[And[Or[Private`a, Private`b], Or[Private`a, Private`c]]]", "Or[Private`a, And[Private`b, Private`c]]"},
		{"ex", "Simplify[Or[Private`a, And[Not[Private`a], Private`b]]]", "Or[Private`a, Private`b]"},
		{"ex", "Simplify[Or[Private`a, Private`b, Not[Private`a], Not[Private`b]]]", "True"},
		{"ex", "Simplify[Or[Private`a, And[Private`a, Infinity]]]", "Private`a"},
		{"ex", "Simplify[And[Or[Private`b, Private`a], Or[Private`c, Private`a]]]", "Or[Private`a, And[Private`b, Private`c]]"},
		{"ex", "Simplify[Or[Private`a, Private`b, Private`c, Not[And[Private`a, Private`b, Private`c]]]]", "True"},
		{"ex", "Simplify[Or[Private`a, Private`b, Private`c, Not[And[Private`a, Private`b, Private`c, Private`d]]]]", "True"},
		{"ex", "Simplify[Or[Private`a, Private`b, Private`c, Private`d, Not[And[Private`a, Private`b, Private`c]]]]", "True"},
		{"ex", "Simplify[Or[Private`a, Private`b, Private`c, Private`d, Not[Private`a]]]", "True"},
		{"ex", "Simplify[Or[Private`az, Private`b, Private`cz, Not[And[Private`ay, Private`b, Private`cy, Private`dy]]]]", "True"},
		{"ex", "Simplify[Or[Private`a, And[Private`a, Private`b, Private`c, Private`d]]]", "Private`a"},
		{"ex", "Simplify[Or[Private`d, And[Private`a, Private`b, Private`c, Private`d]]]", "Private`d"},
		{"ex", "Simplify[Or[Private`d, Private`e, And[Private`a, Private`b, Private`c, Private`d]]]", "Or[Private`d, Private`e]"},
		{"ex", "Sort[Simplify[Or[Private`d, Private`b, And[Private`a, Private`b, Private`c, Private`d]]]]", "Or[Private`b, Private`d]"},
		{"ex", "Simplify[Or[Private`d, Private`b, And[Private`a, Private`b, Private`c, Private`d], Not[Private`b]]]", "True"},
		{"ex", "Simplify[Private`foo[Or[Private`d, Private`b, And[Private`a, Private`b, Private`c, Private`d], Not[Private`b]]]]", "Private`foo[True]"},
		{"ex", "Simplify[Or[Private`d, Private`e, And[Private`a, Private`b, Private`c]]]", "Or[Private`d, Private`e, And[Private`a, Private`b, Private`c]]"},
		{"ex", "Simplify[Or[Private`z, Private`z]]", "Private`z"},
		{"ex", "Sort[Simplify[Or[Private`z, Private`a, Private`z]]]", "Or[Private`a, Private`z]"},
		{"ex", "Simplify[Or[Private`a, And[Private`a, Private`b]]]", "Private`a"},
		{"ex", "Simplify[Or[Private`a, And[Not[Private`a], Private`b]]]", "Or[Private`a, Private`b]"},
		{"ex", "Sort[Simplify[Or[Private`a, Private`c, And[Not[Private`a], Private`b]]]]", "Or[Private`a, Private`b, Private`c]"},
		{"ex", "Sort[Simplify[Or[Private`a, Private`c, And[Not[Private`a], Not[Private`c], Private`b]]]]", "Or[Private`a, Private`b, Private`c]"},
		{"ex", "Sort[Simplify[Or[Private`a, Private`c, And[Not[Private`a], Not[Private`c], Not[Private`b]]]]]", "Or[Private`a, Private`c, Not[Private`b]]"},
		{"ex", "Sort[Simplify[Or[Private`a, Private`c, And[Not[Private`a], Not[Private`c], Not[Private`b], Private`d]]]]", "Or[Private`a, Private`c, And[Not[Private`b], Private`d]]"},
		{"ex", "Sort[Simplify[Or[Private`c, Private`a, Not[Private`b]]]]", "Or[Private`a, Private`c, Not[Private`b]]"},
		{"ex", "Simplify[And[Private`x1, Private`a, Private`x2, Not[Or[Private`x3, Private`a, Private`x4]], Private`x5]]", "False"},
		{"ex", "Simplify[And[Private`x1, Private`a, Private`x2, Or[Private`x3, Private`a, Private`x4], Private`x5]]", "And[Private`a, Private`x1, Private`x2, Private`x5]"},
		{"ex", "Simplify[And[Private`a, Private`b, Private`a]]", "And[Private`a, Private`b]"},
		{"ex", "Simplify[Power[Plus[16, Times[8, Plus[(-6), Times[4, Private`x], Times[Times[2, Power[Private`x, 2]], (-1)]]]], 9]]", "Power[Plus[(-32), Times[32, Private`x], Times[Times[16, Power[Private`x, 2]], (-1)]], 9]"},
		{"ex", "Simplify[Power[Plus[Times[1, Power[3, (-1)]], Times[Times[1, Power[3, (-1)]], Power[(-2), Times[(-1), Power[3, (-1)]]], Power[2, Times[(-2), Power[3, (-1)]]], Plus[1, Times[Plus[0, Times[1, I]], Power[3, Times[1, Power[2, (-1)]]]]]], Times[Times[1, Power[6, (-1)]], Power[(-1), Times[1, Power[3, (-1)]]], Plus[1, Times[Plus[0, Times[(-1), I]], Power[3, Times[1, Power[2, (-1)]]]]]]], 2]]", "1"},
		{"ex", "Simplify[Power[Plus[Times[1, Power[3, (-1)]], Times[Times[1, Power[3, (-1)]], Power[(-2), Times[(-1), Power[3, (-1)]]], Power[2, Times[(-2), Power[3, (-1)]]], Plus[1, Times[Plus[0, Times[(-1), I]], Power[3, Times[1, Power[2, (-1)]]]]]], Times[Times[1, Power[6, (-1)]], Power[(-1), Times[1, Power[3, (-1)]]], Plus[1, Times[Plus[0, Times[1, I]], Power[3, Times[1, Power[2, (-1)]]]]]]], 2]]", "0"},
	}},
	{"simplify", "FullSimplify", []docEx{
		{"ex", "FullSimplify[Plus[Power[E, Times[Private`x, (-1)]], Power[E, Private`x]]]", "Times[2, Cosh[Private`x]]"},
	}},
	{"numbertheory", "PrimeQ", []docEx{
		{"ex", "PrimeQ[5]", "True"},
		{"ex", "PrimeQ[100]", "False"},
		{"ex", "PrimeQ[982451653]", "True"},
		{"ex", "PrimeQ[(-2)]", "True"},
		{"ex", "PrimeQ[5.]", "False"},
		{"ex", "PrimeQ[0]", "False"},
		{"ex", "PrimeQ[1]", "False"},
		{"ex", "PrimeQ[(-1)]", "False"},
		{"ex", "PrimeQ[0.5]", "False"},
	}},
	{"numbertheory", "GCD", []docEx{
		{"ex", "GCD[9, 6]", "3"},
		{"ex", "GCD[100, 30, 15]", "5"},
		{"ex", "GCD[9, 2]", "1"},
		{"ex", "GCD[100, 0, 10]", "10"},
		{"ex", "GCD[9, 3]", "3"},
		{"ex", "GCD[100, 30, 10]", "10"},
		{"ex", "GCD[100, 30]", "10"},
		{"ex", "GCD[100, 30, (-1)]", "1"},
		{"ex", "GCD[100, 30, (-60)]", "10"},
		{"ex", "GCD[(-60), (-60), (-60)]", "60"},
		{"ex", "GCD[(-60), (-60), (-0.5)]", "GCD[(-60), (-60), (-0.5)]"},
		{"ex", "GCD[0.5]", "GCD[0.5]"},
		{"ex", "GCD[1, Private`a]", "GCD[1, Private`a]"},
		{"ex", "GCD[Private`a, Private`a]", "GCD[Private`a, Private`a]"},
		{"ex", "GCD[]", "0"},
		{"ex", "GCD[1]", "1"},
		{"ex", "GCD[Private`a]", "GCD[Private`a]"},
		{"ex", "GCD[1000]", "1000"},
		{"ex", "GCD[5, 15]", "5"},
		{"ex", "GCD[5, 15, 30]", "5"},
		{"ex", "GCD[10, 20, 25]", "5"},
		{"ex", "GCD[5, 14]", "1"},
		{"ex", "GCD[Times[5, Power[2, (-1)]], Times[15, Power[2, (-1)]]]", "Times[5, Power[2, (-1)]]"},
		{"ex", "GCD[Times[5, Power[3, (-1)]], 5]", "Times[5, Power[3, (-1)]]"},
		{"ex", "GCD[Times[5, Power[3, (-1)]], Private`a]", "GCD[Times[5, Power[3, (-1)]], Private`a]"},
		{"ex", "GCD[Private`a, Private`b, Private`c]", "GCD[Private`a, Private`b, Private`c]"},
		{"ex", "GCD[0]", "0"},
		{"ex", "GCD[0, 0]", "0"},
		{"ex", "GCD[(-99)]", "99"},
		{"ex", "GCD[Times[(-5), Power[2, (-1)]]]", "Times[5, Power[2, (-1)]]"},
		{"ex", "GCD[10, (-20), 25]", "5"},
		{"ex", "GCD[5, (-14)]", "1"},
		{"ex", "GCD[Times[5, Power[2, (-1)]], Times[(-15), Power[2, (-1)]]]", "Times[5, Power[2, (-1)]]"},
		{"ex", "GCD[Times[5, Power[2, (-1)]], Times[(-15), Power[2, (-1)]], Times[(-15), Power[2, (-1)]]]", "Times[5, Power[2, (-1)]]"},
		{"ex", "GCD[Times[(-5), Power[3, (-1)]], (-5)]", "Times[5, Power[3, (-1)]]"},
		{"ex", "GCD[Times[(-5), Power[3, (-1)]], (-5)]", "Times[5, Power[3, (-1)]]"},
		{"ex", "GCD[Times[(-5), Power[3, (-1)]], Private`a]", "GCD[Times[Times[5, Power[3, (-1)]], (-1)], Private`a]"},
	}},
	{"numbertheory", "LCM", []docEx{
		{"ex", "LCM[5, 14]", "70"},
		{"ex", "LCM[5, 14, 68]", "2380"},
		{"ex", "LCM[Times[2, Power[3, (-1)]], Times[1, Power[3, (-1)]]]", "Times[2, Power[3, (-1)]]"},
		{"ex", "LCM[Times[2, Power[3, (-1)]], Times[1, Power[3, (-1)]], Times[5, Power[6, (-1)]]]", "Times[10, Power[3, (-1)]]"},
		{"ex", "LCM[Times[2, Power[3, (-1)]], Times[1, Power[3, (-1)]], Times[5, Power[6, (-1)]], 3]", "30"},
		{"ex", "LCM[Times[2, Power[3, (-1)]], {Times[1, Power[3, (-1)]], Times[5, Power[6, (-1)]], 3}]", "{Times[2, Power[3, (-1)]], Times[10, Power[3, (-1)]], 6}"},
		{"ex", "LCM[Times[2, Power[3, (-1)]], {Times[1, Power[3, (-1)]], Times[5, Power[6, (-1)]], 3}, Times[5, Power[6, (-1)]]]", "{Times[10, Power[3, (-1)]], Times[10, Power[3, (-1)]], 30}"},
		{"ex", "LCM[Private`a, Private`b]", "LCM[Private`a, Private`b]"},
		{"ex", "LCM[Private`a, Private`b, Private`c]", "LCM[Private`a, Private`b, Private`c]"},
		{"ex", "LCM[5, 6, Private`c]", "LCM[5, 6, Private`c]"},
	}},
	{"numbertheory", "Mod", []docEx{
		{"ex", "Mod[5, 3]", "2"},
		{"ex", "Mod[0, 3]", "0"},
		{"ex", "Mod[2, 0]", "Indeterminate"},
		{"ex", "Mod[Times[(-2), Pi], Times[3, Pi]]", "Pi"},
		{"ex", "Mod[(-5), 3]", "1"},
		{"ex", "Mod[Private`a, 3]", "Mod[Private`a, 3]"},
		{"ex", "Mod[0, 0]", "Indeterminate"},
		{"ex", "Mod[2, Private`a]", "Mod[2, Private`a]"},
		{"ex", "Mod[0, Private`a]", "Mod[0, Private`a]"},
		{"ex", "Mod[(-1), 2]", "1"},
		{"ex", "Mod[Times[Times[3, Power[4, (-1)]], (-1)], 2]", "Times[5, Power[4, (-1)]]"},
		{"ex", "Mod[Times[Times[1, Power[2, (-1)]], (-1)], 2]", "Times[3, Power[2, (-1)]]"},
		{"ex", "Mod[Times[Times[1, Power[4, (-1)]], (-1)], 2]", "Times[7, Power[4, (-1)]]"},
		{"ex", "Mod[0, 2]", "0"},
		{"ex", "Mod[Times[1, Power[4, (-1)]], 2]", "Times[1, Power[4, (-1)]]"},
		{"ex", "Mod[Times[1, Power[2, (-1)]], 2]", "Times[1, Power[2, (-1)]]"},
		{"ex", "Mod[Times[3, Power[4, (-1)]], 2]", "Times[3, Power[4, (-1)]]"},
		{"ex", "Mod[1, 2]", "1"},
	}},
	{"numbertheory", "PrimePi", []docEx{
		{"src", "PrimePi[7]", "4"},
		{"src", "PrimePi[10^6]", "78498"},
		{"src", "PrimePi[-5]", "0"},
		{"src", "PrimePi[0]", "0"},
		{"src", "PrimePi[8]", "4"},
		{"src", "PrimePi[a]", "PrimePi[a]"},
		{"src", "PrimePi[1]", "1"},
		{"src", "PrimePi[2]", "1"},
		{"src", "PrimePi[6]", "3"},
		{"src", "PrimePi[7.]", "4"},
		{"src", "PrimePi[6.9]", "3"},
		{"src", "PrimePi[6.9]", "3"},
	}},
	{"numbertheory", "Prime", []docEx{
		{"src", "Prime[3]", "5"},
		{"src", "Prime[3000]", "27449"},
		{"src", "Prime[0]", "Prime[0]"},
		{"src", "Prime[1.]", "Prime[1.]"},
		{"src", "Prime[1]", "2"},
		{"src", "Prime[2^64]//Head", "Prime"},
	}},
	{"numbertheory", "EvenQ", []docEx{
		{"ex", "EvenQ[6]", "True"},
		{"ex", "EvenQ[(-2)]", "True"},
		{"ex", "EvenQ[1]", "False"},
		{"ex", "EvenQ[2.]", "EvenQ[2.]"},
		{"ex", "EvenQ[Private`a]", "EvenQ[Private`a]"},
	}},
	{"numbertheory", "OddQ", []docEx{
		{"ex", "OddQ[6]", "False"},
		{"ex", "OddQ[(-2)]", "False"},
		{"ex", "OddQ[1]", "True"},
		{"ex", "OddQ[2.]", "OddQ[2.]"},
		{"ex", "OddQ[Private`a]", "OddQ[Private`a]"},
	}},
	{"numbertheory", "FactorInteger", []docEx{
		{"ex", "FactorInteger[8]", "{{2, 3}}"},
		{"ex", "FactorInteger[Rational[(-15), 2]]", "{{(-1), 1}, {2, (-1)}, {3, 1}, {5, 1}}"},
		{"ex", "FactorInteger[(-20)]", "{{(-1), 1}, {2, 2}, {5, 1}}"},
		{"ex", "FactorInteger[(-7)]", "{{(-1), 1}, {7, 1}}"},
		{"ex", "FactorInteger[(-3)]", "{{(-1), 1}, {3, 1}}"},
		{"ex", "FactorInteger[(-2)]", "{{(-1), 1}, {2, 1}}"},
		{"ex", "FactorInteger[(-1)]", "{{(-1), 1}}"},
		{"ex", "FactorInteger[0]", "{{0, 1}}"},
		{"ex", "FactorInteger[1]", "{{1, 1}}"},
		{"ex", "FactorInteger[2]", "{{2, 1}}"},
		{"ex", "FactorInteger[3]", "{{3, 1}}"},
		{"ex", "FactorInteger[4]", "{{2, 2}}"},
		{"ex", "FactorInteger[7]", "{{7, 1}}"},
		{"ex", "FactorInteger[Rational[21, 4]]", "{{2, (-2)}, {3, 1}, {7, 1}}"},
		{"ex", "FactorInteger[Rational[(-1), 2]]", "{{(-1), 1}, {2, (-1)}}"},
		{"ex", "FactorInteger[Rational[1, 2]]", "{{2, (-1)}}"},
	}},
	{"numbertheory", "FractionalPart", []docEx{
		{"ex", "FractionalPart[(-1)]", "0"},
		{"ex", "FractionalPart[Times[Times[3, Power[4, (-1)]], (-1)]]", "Times[Times[3, Power[4, (-1)]], (-1)]"},
		{"ex", "FractionalPart[Times[Times[1, Power[2, (-1)]], (-1)]]", "Times[Times[1, Power[2, (-1)]], (-1)]"},
		{"ex", "FractionalPart[Times[Times[1, Power[4, (-1)]], (-1)]]", "Times[Times[1, Power[4, (-1)]], (-1)]"},
		{"ex", "FractionalPart[0]", "0"},
		{"ex", "FractionalPart[Times[1, Power[4, (-1)]]]", "Times[1, Power[4, (-1)]]"},
		{"ex", "FractionalPart[Times[1, Power[2, (-1)]]]", "Times[1, Power[2, (-1)]]"},
		{"ex", "FractionalPart[Times[3, Power[4, (-1)]]]", "Times[3, Power[4, (-1)]]"},
		{"ex", "FractionalPart[1]", "0"},
	}},
	{"numbertheory", "IntegerPart", []docEx{
		{"ex", "IntegerPart[(-1)]", "(-1)"},
		{"ex", "IntegerPart[Times[Times[3, Power[4, (-1)]], (-1)]]", "0"},
		{"ex", "IntegerPart[Times[Times[1, Power[2, (-1)]], (-1)]]", "0"},
		{"ex", "IntegerPart[Times[Times[1, Power[4, (-1)]], (-1)]]", "0"},
		{"ex", "IntegerPart[0]", "0"},
		{"ex", "IntegerPart[Times[1, Power[4, (-1)]]]", "0"},
		{"ex", "IntegerPart[Times[1, Power[2, (-1)]]]", "0"},
		{"ex", "IntegerPart[Times[3, Power[4, (-1)]]]", "0"},
		{"ex", "IntegerPart[1]", "1"},
	}},
	{"numbertheory", "PowerMod", []docEx{
		{"ex", "PowerMod[5, 9999, 7]", "6"},
	}},
	{"numbertheory", "EulerPhi", []docEx{
		{"ex", "EulerPhi[98]", "42"},
		{"ex", "EulerPhi[0]", "0"},
		{"ex", "EulerPhi[(-98)]", "42"},
		{"ex", "EulerPhi[1]", "1"},
		{"ex", "EulerPhi[(-1)]", "1"},
	}},
	{"numbertheory", "Fibonacci", []docEx{
		{"ex", "Fibonacci[20]", "6765"},
	}},
	{"numbertheory", "IntegerDigits", []docEx{
		{"ex", "IntegerDigits[123]", "{1, 2, 3}"},
		{"ex", "IntegerDigits[123, 2]", "{1, 1, 1, 1, 0, 1, 1}"},
		{"ex", "IntegerDigits[(-123), 2]", "{1, 1, 1, 1, 0, 1, 1}"},
	}},
	{"numbertheory", "FromDigits", []docEx{
		{"ex", "FromDigits[{3, 2, 1}]", "321"},
		{"ex", "FromDigits[{1, 1, 0, 1}, 2]", "13"},
	}},
	{"numbertheory", "Sign", []docEx{
		{"ex", "Sign[5]", "1"},
		{"ex", "Sign[0]", "0"},
		{"ex", "Sign[(-5)]", "(-1)"},
		{"ex", "Sign[5.]", "1"},
		{"ex", "Sign[0.]", "0"},
		{"ex", "Sign[(-5.)]", "(-1)"},
		{"ex", "Sign[Times[1, Power[2, (-1)]]]", "1"},
	}},
	{"stats", "NormalDistribution", []docEx{
		{"ex", "PDF[NormalDistribution[Private`μ, Private`σ], Private`x]", "Times[Power[E, Times[Times[Power[Plus[Private`x, Times[Private`μ, (-1)]], 2], Power[Times[2, Power[Private`σ, 2]], (-1)]], (-1)]], Power[Times[Sqrt[Times[2, Pi]], Private`σ], (-1)]]"},
	}},
	{"stats", "LogNormalDistribution", []docEx{
		{"ex", "PDF[LogNormalDistribution[Private`μ, Private`σ], Private`x]", "Private`Piecewise[{{Times[1, Power[Times[Power[E, Times[Power[Plus[Times[Private`μ, (-1)], Log[Private`x]], 2], Power[Times[2, Power[Private`σ, 2]], (-1)]]], Sqrt[Times[2, Pi]], Private`x, Private`σ], (-1)]], Greater[Private`x, 0]}}, 0]"},
	}},
	{"stats", "PDF", []docEx{
		{"ex", "PDF[NormalDistribution[Private`μ, Private`σ], Private`x]", "Times[Power[E, Times[Times[Power[Plus[Private`x, Times[Private`μ, (-1)]], 2], Power[Times[2, Power[Private`σ, 2]], (-1)]], (-1)]], Power[Times[Sqrt[Times[2, Pi]], Private`σ], (-1)]]"},
		{"ex", "PDF[LogNormalDistribution[Private`μ, Private`σ], Private`x]", "Private`Piecewise[{{Times[1, Power[Times[Power[E, Times[Power[Plus[Times[Private`μ, (-1)], Log[Private`x]], 2], Power[Times[2, Power[Private`σ, 2]], (-1)]]], Sqrt[Times[2, Pi]], Private`x, Private`σ], (-1)]], Greater[Private`x, 0]}}, 0]"},
	}},
	{"manip", "Together", []docEx{
		{"ex", "Together[Plus[Times[1, Power[2, (-1)]], Times[3, Power[Private`a, (-1)]]]]", "Times[Plus[6, Private`a], Power[Times[2, Private`a], (-1)]]"},
		{"ex", "Together[Power[Plus[Times[1, Power[2, (-1)]], Times[3, Power[Private`a, (-1)]]], Private`c]]", "Power[Plus[Times[1, Power[2, (-1)]], Times[3, Power[Private`a, (-1)]]], Private`c]"},
		{"ex", "Together[Power[Plus[Times[1, Power[2, (-1)]], Times[3, Power[Private`a, (-1)]]], 2]]", "Times[Power[Plus[6, Private`a], 2], Power[Times[4, Power[Private`a, 2]], (-1)]]"},
		{"ex", "Together[Plus[Private`a, Private`b, Times[Private`c, Power[Private`d, (-1)]]]]", "Times[Plus[Private`c, Times[Private`a, Private`d], Times[Private`b, Private`d]], Power[Private`d, (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Plus[Private`a, Private`b], (-1)]], Times[1, Power[Plus[Private`c, Private`d], (-1)]]]]", "Times[Plus[Private`a, Private`b, Private`c, Private`d], Power[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Plus[Private`a, Private`b], (-1)]], Times[1, Power[Plus[Private`c, Private`d], (-1)]], Times[Private`a, (-1)]]]", "Times[Plus[Private`a, Private`b, Private`c, Times[Times[Power[Private`a, 2], Private`c], (-1)], Times[Times[Private`a, Private`b, Private`c], (-1)], Private`d, Times[Times[Power[Private`a, 2], Private`d], (-1)], Times[Times[Private`a, Private`b, Private`d], (-1)]], Power[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]], (-1)]]"},
		{"ex", "Together[Plus[Times[Private`a, Power[Private`b, (-1)]], Private`c]]", "Times[Plus[Private`a, Times[Private`b, Private`c]], Power[Private`b, (-1)]]"},
		{"ex", "Together[Times[Plus[Private`a, Times[Times[Private`b, Private`c], Power[Private`d, (-1)]]], Power[Private`b, (-1)]]]", "Times[Plus[Times[Private`b, Private`c], Times[Private`a, Private`d]], Power[Times[Private`b, Private`d], (-1)]]"},
		{"ex", "Together[Plus[Private`a, Times[Times[Private`b, Private`c], Power[Private`d, (-1)]]]]", "Times[Plus[Times[Private`b, Private`c], Times[Private`a, Private`d]], Power[Private`d, (-1)]]"},
		{"ex", "Together[Times[Plus[Private`c, Times[Private`a, Private`d], Times[Private`b, Private`d]], Power[Private`d, (-1)]]]", "Times[Plus[Private`c, Times[Private`a, Private`d], Times[Private`b, Private`d]], Power[Private`d, (-1)]]"},
		{"ex", "Together[Times[Plus[3, Times[Private`a, Power[2, (-1)]], Private`b], Power[Private`a, (-1)]]]", "Times[Plus[6, Private`a, Times[2, Private`b]], Power[Times[2, Private`a], (-1)]]"},
		{"ex", "Together[Times[Times[Private`a, Power[Private`b, (-1)]], Power[Private`e, (-1)]]]", "Times[Private`a, Power[Times[Private`b, Private`e], (-1)]]"},
		{"ex", "Together[Times[Plus[3, Times[Private`a, Times[1, Power[4, (-1)]]]], Power[Private`a, (-1)]]]", "Times[Plus[12, Private`a], Power[Times[4, Private`a], (-1)]]"},
		{"ex", "Together[Plus[3, Times[Private`foo[Private`a], Times[2, Power[4, (-1)]]]]]", "Times[Times[1, Power[2, (-1)]], Plus[6, Private`foo[Private`a]]]"},
		{"ex", "Together[Plus[Times[1, Power[2, (-1)]], Times[3, Power[Private`a, (-1)]]]]", "Times[Plus[6, Private`a], Power[Times[2, Private`a], (-1)]]"},
		{"ex", "Together[Times[Plus[Private`c, Times[Private`a, Power[Private`b, (-1)]]], Power[Private`a, (-1)]]]", "Times[Plus[Private`a, Times[Private`b, Private`c]], Power[Times[Private`a, Private`b], (-1)]]"},
		{"ex", "Together[Times[Plus[Private`c, Private`e, Times[Private`a, Power[Private`b, (-1)]]], Power[Private`d, (-1)]]]", "Times[Plus[Private`a, Times[Private`b, Private`c], Times[Private`b, Private`e]], Power[Times[Private`b, Private`d], (-1)]]"},
		{"ex", "Together[Plus[Power[Plus[Times[1, Power[2, (-1)]], Times[3, Power[Private`a, (-1)]]], 2], Times[Private`b, Power[Private`c, (-1)]]]]", "Times[Plus[Times[4, Power[Private`a, 2], Private`b], Times[36, Private`c], Times[12, Private`a, Private`c], Times[Power[Private`a, 2], Private`c]], Power[Times[4, Power[Private`a, 2], Private`c], (-1)]]"},
		{"ex", "Together[Times[Plus[3, Times[Private`a, Power[2, (-1)]]], Power[Private`a, (-1)]]]", "Times[Plus[6, Private`a], Power[Times[2, Private`a], (-1)]]"},
		{"ex", "Together[Times[Plus[Private`rest, Times[Private`a, Times[Private`b, Power[Private`c, (-1)]]]], Power[Private`d, (-1)]]]", "Times[Plus[Times[Private`a, Private`b], Times[Private`c, Private`rest]], Power[Times[Private`c, Private`d], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Plus[Private`a, Private`b], (-1)]], Private`c]]", "Times[Plus[1, Times[Private`a, Private`c], Times[Private`b, Private`c]], Power[Plus[Private`a, Private`b], (-1)]]"},
		{"ex", "Together[Times[Plus[Private`c, Times[Private`a, Private`d], Times[Private`b, Private`d]], Power[Private`d, (-1)]]]", "Times[Plus[Private`c, Times[Private`a, Private`d], Times[Private`b, Private`d]], Power[Private`d, (-1)]]"},
		{"ex", "Together[Times[Plus[3, Times[Private`a, Power[2, (-1)]], Private`b], Power[Private`a, (-1)]]]", "Times[Plus[6, Private`a, Times[2, Private`b]], Power[Times[2, Private`a], (-1)]]"},
		{"ex", "Together[Times[Times[Private`a, Power[Private`b, (-1)]], Power[Private`e, (-1)]]]", "Times[Private`a, Power[Times[Private`b, Private`e], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Plus[Private`a, Private`b], (-1)]], Private`c, Times[Private`d, Power[Private`a, (-1)]]]]", "Times[Plus[Private`a, Times[Power[Private`a, 2], Private`c], Times[Private`a, Private`b, Private`c], Times[Private`a, Private`d], Times[Private`b, Private`d]], Power[Times[Private`a, Plus[Private`a, Private`b]], (-1)]]"},
		{"ex", "Together[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]]]", "Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]]"},
		{"ex", "Together[Plus[Times[1, Power[Plus[Private`a, Private`b], (-1)]], Times[1, Power[Plus[Private`c, Private`d], (-1)]]]]", "Times[Plus[Private`a, Private`b, Private`c, Private`d], Power[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]], (-1)]]"},
		{"ex", "Together[Times[1, Power[Plus[Private`a, Private`b], (-1)]]]", "Times[1, Power[Plus[Private`a, Private`b], (-1)]]"},
		{"ex", "Together[Plus[Times[Private`a, Power[Times[Private`b, Private`c], (-1)]], Times[Private`e, Private`f]]]", "Times[Plus[Private`a, Times[Private`b, Private`c, Private`e, Private`f]], Power[Times[Private`b, Private`c], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Plus[Private`a, Private`b], (-1)]], Times[1, Power[Plus[Private`c, Private`d], (-1)]], Times[Private`a, (-1)]]]", "Times[Plus[Private`a, Private`b, Private`c, Times[Times[Power[Private`a, 2], Private`c], (-1)], Times[Times[Private`a, Private`b, Private`c], (-1)], Private`d, Times[Times[Power[Private`a, 2], Private`d], (-1)], Times[Times[Private`a, Private`b, Private`d], (-1)]], Power[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Private`a, (-1)]], Times[1, Power[Private`b, (-1)]]]]", "Times[Plus[Private`a, Private`b], Power[Times[Private`a, Private`b], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Private`a, (-1)]], Times[1, Power[Private`b, (-1)]], Private`c]]", "Times[Plus[Private`a, Private`b, Times[Private`a, Private`b, Private`c]], Power[Times[Private`a, Private`b], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Private`c, (-1)]], Private`d]]", "Times[Plus[1, Times[Private`c, Private`d]], Power[Private`c, (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[2, (-1)]], Private`a]]", "Times[1, Power[2, (-1)], Plus[1, Times[2, Private`a]]]"},
		{"ex", "Together[Times[Plus[1, Times[Private`a, Power[Plus[Private`c, Private`d], (-1)]], Times[Private`b, Power[Plus[Private`c, Private`d], (-1)]]], Power[Plus[Private`a, Private`b], (-1)]]]", "Times[Plus[Private`a, Private`b, Private`c, Private`d], Power[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]], (-1)]]"},
		{"ex", "Together[Plus[Times[1, Power[Private`a, (-1)]], Times[1, Power[Private`b, (-1)]], Private`c, Private`d]]", "Times[Plus[Private`a, Private`b, Times[Private`a, Private`b, Private`c], Times[Private`a, Private`b, Private`d]], Power[Times[Private`a, Private`b], (-1)]]"},
		{"ex", "Together[Plus[Times[2, Private`a], Times[2, Private`b]]]", "Times[2, Plus[Private`a, Private`b]]"},
	}},
	{"manip", "Numerator", []docEx{
		{"ex", "Numerator[Times[Private`a, Power[Private`b, (-1)]]]", "Private`a"},
		{"ex", "Numerator[Times[Power[Private`a, 2], Private`b]]", "Times[Power[Private`a, 2], Private`b]"},
		{"ex", "Numerator[Times[Power[Private`a, 2], Power[Private`b, (-2)]]]", "Power[Private`a, 2]"},
		{"ex", "Numerator[Times[Power[Private`a, 2], Power[Private`b, Times[Private`a, (-1)]], Private`c]]", "Times[Power[Private`a, 2], Private`c]"},
		{"ex", "Numerator[Times[2, Power[3, (-1)]]]", "2"},
	}},
	{"manip", "Denominator", []docEx{
		{"ex", "Denominator[Times[Private`a, Power[Times[Private`b, Private`c], (-1)]]]", "Times[Private`b, Private`c]"},
		{"ex", "Denominator[Times[Power[Private`a, 2], Private`b]]", "1"},
		{"ex", "Denominator[Times[Power[Private`a, 2], Power[Private`b, (-2)], Power[Private`c, (-3)]]]", "Times[Power[Private`b, 2], Power[Private`c, 3]]"},
		{"ex", "Denominator[Times[Power[Private`a, 2], Power[Private`b, Times[Private`a, (-1)]], Power[Private`c, Times[Private`d, (-1)]]]]", "Times[Power[Private`b, Private`a], Power[Private`c, Private`d]]"},
		{"ex", "Denominator[Times[2, Power[3, (-1)]]]", "3"},
	}},
	{"manip", "Apart", []docEx{
		{"ex", "Apart[Power[Plus[Private`a, Private`b], 3]]", "Plus[Power[Private`a, 3], Times[3, Power[Private`a, 2], Private`b], Times[3, Private`a, Power[Private`b, 2]], Power[Private`b, 3]]"},
		{"ex", "Apart[Times[Plus[Times[3, Private`x], Times[8, (-1)]], Power[Times[Plus[Private`x, 1], Plus[Private`x, Times[5, (-1)]]], (-1)]], Private`x]", "Plus[Times[7, Power[Times[6, Plus[(-5), Private`x]], (-1)]], Times[11, Power[Times[6, Plus[1, Private`x]], (-1)]]]"},
		{"ex", "Apart[Times[Power[Private`x, 6], Power[Times[Plus[Private`a, Times[Private`b, Private`x]], Plus[Private`a, Times[Private`b, Private`x]]], (-1)]], Private`x]", "Plus[Times[Times[5, Power[Private`a, 4]], Power[Power[Private`b, 6], (-1)]], Times[Times[Times[4, Power[Private`a, 3], Private`x], Power[Power[Private`b, 5], (-1)]], (-1)], Times[Times[3, Power[Private`a, 2], Power[Private`x, 2]], Power[Power[Private`b, 4], (-1)]], Times[Times[Times[2, Private`a, Power[Private`x, 3]], Power[Power[Private`b, 3], (-1)]], (-1)], Times[Power[Private`x, 4], Power[Power[Private`b, 2], (-1)]], Times[Power[Private`a, 6], Power[Times[Power[Private`b, 6], Power[Plus[Private`a, Times[Private`b, Private`x]], 2]], (-1)]], Times[Times[Times[6, Power[Private`a, 5]], Power[Times[Power[Private`b, 6], Plus[Private`a, Times[Private`b, Private`x]]], (-1)]], (-1)]]"},
		{"ex", "Apart[Times[Power[Private`x, 6], Power[Plus[Private`a, Times[Private`b, Private`x]], (-2)]], Private`x]", "Plus[Times[Times[5, Power[Private`a, 4]], Power[Power[Private`b, 6], (-1)]], Times[Times[Times[4, Power[Private`a, 3], Private`x], Power[Power[Private`b, 5], (-1)]], (-1)], Times[Times[3, Power[Private`a, 2], Power[Private`x, 2]], Power[Power[Private`b, 4], (-1)]], Times[Times[Times[2, Private`a, Power[Private`x, 3]], Power[Power[Private`b, 3], (-1)]], (-1)], Times[Power[Private`x, 4], Power[Power[Private`b, 2], (-1)]], Times[Power[Private`a, 6], Power[Times[Power[Private`b, 6], Power[Plus[Private`a, Times[Private`b, Private`x]], 2]], (-1)]], Times[Times[Times[6, Power[Private`a, 5]], Power[Times[Power[Private`b, 6], Plus[Private`a, Times[Private`b, Private`x]]], (-1)]], (-1)]]"},
	}},
	{"manip", "Distribute", []docEx{
		{"ex", "Distribute[Times[Plus[Private`a, Private`b], Plus[Private`c, Private`d]]]", "Plus[Times[Private`a, Private`c], Times[Private`b, Private`c], Times[Private`a, Private`d], Times[Private`b, Private`d]]"},
		{"ex", "Distribute[Times[Plus[Private`a, Private`b], Private`c]]", "Plus[Times[Private`a, Private`c], Times[Private`b, Private`c]]"},
		{"ex", "Distribute[Private`foo[Plus[Private`a, Private`b], Private`c]]", "Plus[Private`foo[Private`a, Private`c], Private`foo[Private`b, Private`c]]"},
		{"ex", "Distribute[Private`foo[Private`a, Private`b]]", "Private`foo[Private`a, Private`b]"},
		{"ex", "Distribute[Plus[Private`foo[Private`a, Private`b], Private`foo[Private`c]]]", "Plus[Private`foo[Private`c], Private`foo[Private`a, Private`b]]"},
		{"ex", "Distribute[Plus[Times[Plus[Private`a, Private`b], Private`c], Private`a]]", "Plus[Private`a, Times[Plus[Private`a, Private`b], Private`c]]"},
		{"ex", "Distribute[Times[Plus[Times[Plus[Private`a, Private`b], Private`c], Private`d], Plus[Private`e, Private`f]]]", "Plus[Times[Plus[Private`a, Private`b], Private`c, Private`e], Times[Private`d, Private`e], Times[Plus[Private`a, Private`b], Private`c, Private`f], Times[Private`d, Private`f]]"},
		{"ex", "Distribute[Private`foo[Private`a, Private`b], Private`test]", "Private`test[Private`foo[Private`a, Private`b]]"},
		{"ex", "Distribute[Private`foo[Private`a, Private`test[Private`b, Private`c]], Private`test]", "Private`test[Private`foo[Private`a, Private`b], Private`foo[Private`a, Private`c]]"},
		{"ex", "Distribute[Private`foo[Private`a, Private`test[Private`b, Private`c], Private`test[Private`d, Private`e]], Private`test]", "Private`test[Private`foo[Private`a, Private`b, Private`d], Private`foo[Private`a, Private`b, Private`e], Private`foo[Private`a, Private`c, Private`d], Private`foo[Private`a, Private`c, Private`e]]"},
		{"ex", "Distribute[Private`foo[Private`a, Private`test[Private`b, Private`c], Private`test[Private`d, Private`e], Private`bar[Private`a]], Private`test]", "Private`test[Private`foo[Private`a, Private`b, Private`d, Private`bar[Private`a]], Private`foo[Private`a, Private`b, Private`e, Private`bar[Private`a]], Private`foo[Private`a, Private`c, Private`d, Private`bar[Private`a]], Private`foo[Private`a, Private`c, Private`e, Private`bar[Private`a]]]"},
		{"ex", "Distribute[Private`a, Private`test]", "Private`a"},
		{"ex", "Distribute[Plus[Private`a, Private`b], 1]", "1[Plus[Private`a, Private`b]]"},
		{"ex", "Distribute[Private`bar[Private`a, Private`test[Private`b, Private`c], Private`test[Private`d, Private`e]], Private`test]", "Private`test[Private`bar[Private`a, Private`b, Private`d], Private`bar[Private`a, Private`b, Private`e], Private`bar[Private`a, Private`c, Private`d], Private`bar[Private`a, Private`c, Private`e]]"},
		{"ex", "Distribute[Private`test[Private`f, Private`g][Private`a, Private`test[Private`b, Private`c], Private`test[Private`d, Private`e]], Private`test]", "Private`test[Private`test[Private`f, Private`g][Private`a, Private`b, Private`d], Private`test[Private`f, Private`g][Private`a, Private`b, Private`e], Private`test[Private`f, Private`g][Private`a, Private`c, Private`d], Private`test[Private`f, Private`g][Private`a, Private`c, Private`e]]"},
		{"ex", "Distribute[Private`foo[], Private`test]", "Private`test[Private`foo[]]"},
		{"ex", "Distribute[Private`foo[], Private`test[]]", "Private`test[][Private`foo[]]"},
		{"ex", "Distribute[Private`foo, Private`test]", "Private`foo"},
	}},
	{"tests", "ExpreduceMiscTests", []docEx{
		{"ex", "Set[Private`z, Times[1, Power[2, (-1)], Power[E, Times[I, Times[Pi, Power[4, (-1)]]]]]]", "Times[1, Power[2, (-1)], Power[E, Times[Times[I, Pi], Power[4, (-1)]]]]"},
		{"ex", "Re[Private`z]", "Times[1, Power[Times[2, Sqrt[2]], (-1)]]"},
		{"ex", "Times[1, Power[2, (-1)], Cos[Times[Pi, Power[4, (-1)]]]]", "Times[1, Power[Times[2, Sqrt[2]], (-1)]]"},
		{"ex", "Im[Private`z]", "Times[1, Power[Times[2, Sqrt[2]], (-1)]]"},
		{"ex", "Times[1, Power[2, (-1)], Sin[Times[Pi, Power[4, (-1)]]]]", "Times[1, Power[Times[2, Sqrt[2]], (-1)]]"},
		{"ex", "Abs[Private`z]", "Times[1, Power[2, (-1)]]"},
		{"ex", "Arg[Private`z]", "Times[Pi, Power[4, (-1)]]"},
		{"ex", "Im[Conjugate[Private`z]]", "Times[Times[1, Power[Times[2, Sqrt[2]], (-1)]], (-1)]"},
		{"ex", "FullSimplify[Plus[Private`z, Conjugate[Private`z]]]", "Times[1, Power[Sqrt[2], (-1)]]"},
		{"ex", "Cos[Times[Pi, Power[4, (-1)]]]", "Times[1, Power[Sqrt[2], (-1)]]"},
		{"ex", "ReIm[Times[1, Power[2, (-1)], Power[E, Times[I, Pi]]]]", "{Times[Times[1, Power[2, (-1)]], (-1)], 0}"},
		{"ex", "ReIm[Times[1, Power[2, (-1)], Power[E, Times[I, (-1), Pi]]]]", "{Times[Times[1, Power[2, (-1)]], (-1)], 0}"},
		{"ex", "ReIm[Power[E, Times[I, Times[Pi, Power[2, (-1)]]]]]", "{0, 1}"},
		{"ex", "ReIm[Power[E, Times[I, (-1), Times[Pi, Power[2, (-1)]]]]]", "{0, (-1)}"},
		{"ex", "ReIm[Power[E, Times[I, 5, Times[Pi, Power[2, (-1)]]]]]", "{0, 1}"},
		{"ex", "ReIm[Times[5, Power[E, Times[I, 0]]]]", "{5, 0}"},
		{"ex", "ReIm[Times[2, Power[E, Times[I, Pi]]]]", "{(-2), 0}"},
		{"ex", "ReIm[Times[3, Power[E, Times[I, Times[Times[Pi, (-1)], Power[2, (-1)]]]]]]", "{0, (-3)}"},
		{"ex", "ReIm[Times[1, Power[E, Times[I, Times[(-2), Times[Pi, Power[6, (-1)]]]]]]]", "{Times[1, Power[2, (-1)]], Times[Times[Sqrt[3], Power[2, (-1)]], (-1)]}"},
		{"ex", "ReIm[Times[Sqrt[2], Power[E, Times[I, Times[Pi, Power[4, (-1)]]]]]]", "{1, 1}"},
		{"ex", "ReIm[Times[I, Power[E, Times[I, 10, Private`t]]]]", "{Times[Im[Power[E, Times[10, I, Private`t]]], (-1)], Re[Power[E, Times[10, I, Private`t]]]}"},
		{"ex", "N[Times[2, Times[Pi, Power[10, (-1)]]]]", "0.628319"},
		{"ex", "CompoundExpression[SetDelayed[Private`myf[Pattern[Private`t, Blank[]]], Power[E, Times[Plus[(-1), I], Private`t]]], Null]", "Null"},
		{"ex", "Equal[Private`myf[Private`t], Times[Power[E, Times[Private`t, (-1)]], Power[E, Times[I, Private`t]]]]", "True"},
		{"ex", "N[Times[2, Times[Pi, Power[Times[7, Pi], (-1)]]]]", "0.285714"},
		{"ex", "N[Times[2, Times[Pi, Power[10, (-1)]]]]", "0.628319"},
		{"ex", "N[Times[2, Times[Pi, Power[4, (-1)]]]]", "1.5708"},
		{"ex", "N[Times[LCM[Times[2, Power[10, (-1)]], Times[2, Power[4, (-1)]]], Pi]]", "3.14159"},
		{"ex", "N[Times[LCM[Times[1, Power[5, (-1)]], Times[1, Power[2, (-1)]]], Pi]]", "3.14159"},
		{"ex", "ClearAll[Private`z, Private`myf]", "Null"},
		{"ex", "TrigToExp[Cos[Times[Subscript[Private`ω, 0], Private`t]]]", "Plus[Times[1, Power[2, (-1)], Power[E, Times[I, (-1), Private`t, Subscript[Private`ω, 0]]]], Times[1, Power[2, (-1)], Power[E, Times[I, Private`t, Subscript[Private`ω, 0]]]]]"},
		{"ex", "TrigToExp[Sin[Times[Subscript[Private`ω, 0], Private`t]]]", "Plus[Times[1, Power[2, (-1)], I, Power[E, Times[I, (-1), Private`t, Subscript[Private`ω, 0]]]], Times[Times[1, Power[2, (-1)], I, Power[E, Times[I, Private`t, Subscript[Private`ω, 0]]]], (-1)]]"},
		{"ex", "TrigToExp[Cos[Plus[Times[2, Private`t], Times[Pi, Power[4, (-1)]]]]]", "Plus[Times[1, Power[2, (-1)], Power[E, Plus[Times[Times[Times[I, Pi], Power[4, (-1)]], (-1)], Times[Times[2, I, Private`t], (-1)]]]], Times[1, Power[2, (-1)], Power[E, Plus[Times[Times[I, Pi], Power[4, (-1)]], Times[2, I, Private`t]]]]]"},
		{"ex", "TrigToExp[Plus[Cos[Times[4, Private`t]], Sin[Times[6, Private`t]]]]", "Plus[Times[1, Power[2, (-1)], Power[E, Times[(-4), I, Private`t]]], Times[1, Power[2, (-1)], Power[E, Times[4, I, Private`t]]], Times[1, Power[2, (-1)], I, Power[E, Times[(-6), I, Private`t]]], Times[Times[1, Power[2, (-1)], I, Power[E, Times[6, I, Private`t]]], (-1)]]"},
		{"ex", "TrigToExp[Power[Sin[Private`t], 2]]", "Plus[Times[1, Power[2, (-1)]], Times[Times[1, Power[4, (-1)], Power[E, Times[(-2), I, Private`t]]], (-1)], Times[Times[1, Power[4, (-1)], Power[E, Times[2, I, Private`t]]], (-1)]]"},
		{"ex", "FullSimplify[Times[1, Power[Times[2, I], (-1)]]]", "Times[Times[I, Power[2, (-1)]], (-1)]"},
		{"ex", "FullSimplify[Times[(-1), Power[Times[2, I], (-1)]]]", "Times[I, Power[2, (-1)]]"},
	}},
}
