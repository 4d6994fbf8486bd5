------------------------------ MODULE PipLawTable ------------------------------
(* The laws: see PipLaws.  Every program ends with the value 1. *)
EXTENDS Integers, Sequences

Domains == [
  num |-> << "0", "1", "2", "3", "7", "10", "(-1)", "(-2)", "(-7)", "0.5", "(-1.5)", "2.25", "\"12x\"", "\"-03\"" >>,
  int |-> << "0", "1", "2", "3", "5", "12", "(-1)", "(-2)", "(-5)" >>,
  nat |-> << "0", "1", "2", "3", "5" >>,
  pos |-> << "1", "2", "3", "4", "7" >>,
  small |-> << "(-4)", "(-3)", "(-2)", "(-1)", "0", "1", "2", "3", "4" >>,
  base |-> << "2", "3", "7", "8", "10", "16", "36" >>,
  big |-> << "0", "1", "9", "10", "35", "36", "255", "256", "1000", "46655", "(-10)" >>,
  huge |-> << "0", "1", "(-1)", "7", "(-12)", "9999", "10000", "2147483647", "2147483648", "(-4294967296)", "9007199254740993", "(-9007199254740993)", "99999999999999999999",
              "100000000000000000000", "(-123456789012345678901234567890)", "\"0098765432109876543210\"", "(10**40-1)", "(2**127)", "(-(3**50))" >>,
  hug3 |-> << "0", "(-1)", "9999", "2147483648", "(-9007199254740993)", "100000000000000000000", "(-(3**50))" >>,
  flt |-> << "0.1", "0.2", "0.3", "(-0.7)", "2.675", "(1/3)", "(-(2/7))", "\"1e+20\"", "\"-1.5e-07\"", "123456.789", "\"9007199254740993.0\"", "(0.1+0.2)", "3", "(10**20)", "(10**22/10)", "0" >>,
  flt3 |-> << "0.1", "(-0.7)", "(1/3)", "\"1e+20\"", "123456.789", "(-3)", "0.3" >>,
  str |-> << "\"\"", "\"éΛ€é\"", "\"a\"", "\"ab\"", "\"ba\"", "\"aba\"", "\"Hello, World\"", "\" a  b \"", "\"10\"", "\"aXbX\"" >>,
  char |-> << "\"中\"", "\"a\"", "\"Z\"", "\"0\"", "\" \"", "\"~\"", "n" >>,
  sep |-> << "\"é\"", "\"a\"", "\"b\"", "\"ab\"", "\"X\"", "\" \"", "\"zz\"" >>,
  lst |-> << "[]", "[1]", "[1 2 3]", "[3 1 2 1]", "[[1 2] [3]]", "[\"a\" \"b\"]", "[()]", "[[]]", "[\"ab\" [0 1]]" >>,
  flat |-> << "[]", "[1]", "[1 2 3]", "[3 1 2 1]", "[10 9 (-8) 0.5]", "[5 5 5]" >>,
  strs |-> << "[]", "[\"a\"]", "[\"b\" \"a\" \"c\"]", "[\"B\" \"a\" \"a\"]", "[\"10\" \"9\" \"\"]" >>,
  tab |-> << "[[1 2] [3 4]]", "[[1 2 3] [4 5 6]]", "[[1]]", "[[\"a\" \"b\"] [\"c\" \"d\"] [\"e\" \"f\"]]" >>,
  rng |-> << ",0", ",3", "(1,4)", "((-2),2)", "(3,1)", "(\\,3)" >>,
  seq |-> << "\"\"", "\"a\"", "\"abc\"", "\"abcd\"", "[]", "[1]", "[1 2 3]", "[[1 2] [3] []]", ",0", ",4", "(2,5)", "((-2),1)" >>,
  some |-> << "\"a\"", "\"abc\"", "\"abcd\"", "[1]", "[1 2 3]", "[[1 2] [3] []]", ",4", "(2,5)", "((-2),1)" >>,
  cmp |-> << "0", "1", "2", "10", "(-1)", "\"01\"", "\"abc\"", "\"b\"", "\"\"", "2.5", "\"1.0\"", "\"9\"" >>,
  scmp |-> << "\"\"", "\"é\"", "\"a\"", "\"ab\"", "\"b\"", "\"B\"", "1", "10", "9", "\"01\"" >>,
  lcmp |-> << "[]", "[1]", "[1 2]", "[2]", "[2 1]", "[\"10\"]", "[9]", "[10 \"a\"]", "[\"a\"]" >>,
  truth |-> << "0", "1", "\"\"", "\"0\"", "\"00\"", "\"0.0\"", "\"a\"", "[]", "[0]", "()", ",0", ",1", "{a}", "`a`", "2", "(-0.0)", "\".\"", "[()]" >>,
  any |-> << "\"яX€\"", "0", "1", "(-3)", "2.5", "\"\"", "\"abc\"", "\"-05\"", "\"1.50\"", "\"a\nb\"", "'\"", "[]", "[1 2 3]", "[[1 [()]] \"x\"]", "()", ",4", "(2,5)",
             "(1,())", "(\\,())", "((-2),3)", "`a+`", "(-`x`)", "(.(,`y`))", "{a+1}", "{Pa;b}", "_", "{a.s}", "\"\\\"", "' ", "';", "\"`\"", "[',;]" >>,
  few |-> << "0", "(-3)", "2.5", "\"\"", "\"abc\"", "[]", "[1 [2]]", "()", ",4", "(1,())", "`a+`", "{a+1}", "[0 \"x\"]" >>,
  dat |-> << "0", "(-3)", "2.5", "\"\"", "\"abc\"", "[]", "[1 [2]]", "()", ",4", "`a+`", "[0 \"x\"]" >>,
  fin |-> << "0", "(-3)", "2.5", "\"\"", "\"abc\"", "[]", "[1 [2]]", "()", ",4", "`a+`", "{a+1}", "[0 \"x\"]" >>,
  anyfin |-> << "0", "1", "(-3)", "2.5", "\"\"", "\"abc\"", "\"-05\"", "\"a\nb\"", "'\"", "[]", "[1 2 3]", "[[1 [()]] \"x\"]", "()", ",4", "((-2),3)", "`a+`", "(-`x`)", "{a+1}", "{Pa;b}", "_", "[()]", "[`a`{b}]", "\")\"", "(3,1)", "1e", "\"9999999\"" >>,
  fn |-> << "{a}", "{a+1}", "{a.a}", "{[a b]}", "{#a}", "{()}", "_", "(_.\"-\")", "{a@0}", "{b}" >>,
  fun |-> << "{}", "{a}", "{a+b}", "{Pa;b}", "{a;}", "{\"s;\"}", "{' }", "{';}", "{-5}", "{a-(-5)}", "{I a P b}", "{I a {b} EL {c}}", "{I a{P 1}EI b{P 2}EL{P 3}a}", "{Fi,3{Pi}}", "{F[i k]a{P i}}", "{W a{U a}}", "{T a P b}",
             "{L 3 a}", "{LR`a`b{P $0}}", "{[a;b c]}", "{(a b)}", "{a?b c}", "{a<b<c}", "{$+a}", "{\\$.a}", "{-*a}", "{a:b}", "{a+:1}", "{$+:a}", "{@<a}", "{a@b@c}", "{{a}}", "{a M{b}}", "{`x\\`y`}", "{\\\"q\\(a)r\\\"}",
             "{()}", "{[]}", "{!a&b|c}", "{a R b c}", "{(a.b) J c}", "{a+(b+c)}", "{a**b**c}", "{(a**b)**c}", "{a\\&b}", "{$_}", "{\\a.\\g}", "{x;y;z}", "{a b}", "{1 2}", "{a.5}", "{.5}", "{@ *a}", "{(a)}", "{((a b)c)}" >>,
  pure |-> << "{}", "{a}", "{a+b}", "{a-(-5)}", "{a;}", "{\"s;\"}", "{' }", "{';}", "{(-5)}", "{I a{z:3}a}", "{a?b 3}", "{a<b<3}", "{[a;b 3]}", "{a:b;a}", "{a AE b}", "{a+b*2}", "{(a+b)*2}", "{a-b-1}", "{a-(b-1)}", "{2**a**2}", "{a|b&0}",
             "{F i,3{z:i}z}", "{W a&0{a:0}a}", "{\\a}", "{`x\\`y`}", "{.5.a}", "{a@0@0}", "{#a.1}", "{(#a).1}", "{{a}}", "{-a}", "{- -a}", "{!a&b}", "{!(a&b)}", "{$+[a b]}", "{\\$.[a b]}", "{a=b}", "{a=b=a}", "{(a=b)=a}", "{(_.1)}", "{[a[b[3]]]}", "{n.a}", "{RP(-1)}", "{a.(-1)}", "{a X 2}", "{a@-1}" >>,
  pick |-> << "\"a\"", "\"abc\"", "\"aba\"", "[1]", "[1 2]", "[3 1 3]", "[[1 2] 3 \"x\"]", ",3", "(2,5)", "((-1),1)" >>,
  seed |-> << "5", "\"ab\"", "0", "()", "[1 2]", "\"\"", "(-3)", "1.5" >>,
  tbl |-> << "\"éa€É\"", "0", "1", "2", "(-3)", "2.5", "10", "\"\"", "\"abc\"", "\"12x\"", "\"-05\"", "\"aXbX a\"", "[]", "[3 1 2]", "[1 [2 \"a\"]]", "[\"b\" \"a\"]", "()", ",4", "((-2),2)", "(1,())", "`a.?`", "{a.1}", "(_+1)" >>,
  tb3 |-> << "1", "(-2)", "\"b\"", "[2 \"a\"]", "()", ",3", "`b`", "{b}" >>,
  rel |-> << "0", "1", "(-1)", "2", "3", "10", "0.5", "(-0.1)", "1.5", "100", "PI", "(PI/2)", "(-PI/6)", "1024", "12345.678", "0.001", "(10**15)", "(-(2**40))", "7", "(1/3)" >>,
  pre |-> << "AZ", "CZ", "PA", "PI", "VW", "VY", "XA", "XC", "XD", "XI", "XL", "XN", "XU", "XV", "XW", "XX", "XY", "B", "G", "_", "h", "i", "k", "l", "m", "n", "o", "s", "t", "u", "v", "w", "z" >>,
  pred |-> << "{a}", "{a>1}", "{a%2}", "{0}", "{1}", "{#a}", "{b>0}", "(_=1)", "{()}" >> ]

Tr(d, p) == [d |-> d, p |-> p, o |-> "1\n"]
\* one law per operator: the operator's text goes where the # is
RECURSIVE Fill(_, _, _)
Fill(p, op, i) == IF i > Len(p) THEN ""
                 ELSE (IF SubSeq(p, i, i) = "#" THEN op ELSE SubSeq(p, i, i)) \o Fill(p, op, i + 1)
Each1(d, p, ops) == [j \in DOMAIN ops |-> Tr(d, Fill(p, ops[j], 1))]

BroadOps == << "+", "-", "*", "/", "%", "//", ".", "BA", "BO", "BX", "AD", "TB", "**" >>
UnOps == << "-", "+", "AB", "SG", "HV", "HU", "DB", "SQ", "|<", ">|", "RZ", "RN", "BN", "BL", "A", "UC", "LC", "SC", "TC", "IC", "||", "|>", "<|", "TM", "TB", "FB", "TD" >>
FoldOps == << "+", "-", "*", ".", "//", "%", " BX ", " AE ", " PE ", " CM ", "/", " AD " >>

Covers == << "RC\"abc\"", "RC[1[2]()]", "RC,4", "RC(4,7)", "RC[1 1 2]", "RR3", "RR2", "RR5", "2RR5", "(-1)RR2", "()RR3", "RR\"3\"", "RR3.9", "SH\"abc\"", "SH,3", "SH[[1]2\"x\"]", "SH(2,4)", "SH[1 1 2]", "RR[2 2]",
             "[SH,2 RR2]", "RR*[2 2]", "RC*[\"ab\"[0 1]]", "{RRa}M[2 3]", "SH*[[1 2]\"ab\"]", "RC[,2\"ab\"]", "[1 0]RR 3", "r<0.5?1 0", "(r<0.5).(r<0.5)", "0RR[2 3]", "(RCSH,3)" >>

LawsOf(id) ==
  CASE id = "C02" -> <<
      Tr(<< "int", "int", "int" >>, "x+y*z==(x+(y*z))"), Tr(<< "int", "int", "int" >>, "x*y+z==((x*y)+z)"), Tr(<< "int", "int", "int" >>, "x-y-z==((x-y)-z)"),
      Tr(<< "nat", "nat", "nat" >>, "x.y+z==(x.(y+z))"), Tr(<< "nat", "nat", "nat" >>, "x<y<z==((x<y)&(y<z))"), Tr(<< "nat", "nat", "nat" >>, "x=y!=z==((x=y)&(y!=z))"),
      Tr(<< "truth", "truth", "nat" >>, "(x?1 y?2 3)==(x?1(y?2 3))"), Tr(<< "truth", "truth", "truth" >>, "(x|y&z)==(x|(y&z))"), Tr(<< "truth", "truth", "truth" >>, "(x&y|z)==((x&y)|z)"),
      Tr(<< "truth", "nat", "nat" >>, "(!y=z)==(!(y=z))"), Tr(<< "truth", "truth" >>, "(!x&y)==((!x)&y)"), Tr(<< "int", "nat" >>, "(-x**y)==(-(x**y))"), Tr(<< "int", "int" >>, "(-x*y)==((-x)*y)"),
      Tr(<< "nat", "pos" >>, "(2**x**y%3)Q((2**(x**y))%3)|x>2"), Tr(<< "int", "int", "int" >>, "(x+y,z)==((x+y),z)"), Tr(<< "int", "int", "int" >>, "(x,y+z)==(x,(y+z))"),
      Tr(<< "some", "nat" >>, "(#x+y)==((#x)+y)"), Tr(<< "some", "small" >>, "(#x@y)==(#(x@y))"), Tr(<< "some", "small" >>, "(x@y.1)==((x@y).1)"), Tr(<< "str", "str", "str" >>, "(x.y J z)==((x.y)Jz)"),
      Tr(<< "nat", "nat" >>, "(z:x+y)=(x+y)&z=x+y"), Tr(<< "nat", "nat" >>, "z:y:x;z=x&y=x"), Tr(<< "some", "some" >>, "(RVx AL y)==((RVx)ALy)"), Tr(<< "pos", "pos", "pos" >>, "(x//y//z)==((x//y)//z)"),
      Tr(<< "nat", "nat", "nat" >>, "(x*y X z)==((x*y)Xz)"), Tr(<< "int", "int", "int" >>, "(x-y*z-x)==((x-(y*z))-x)"), Tr(<< "flat", "nat" >>, "(_+y Mx)==((_+y)Mx)"), Tr(<< "int", "int", "int" >>, "(x+y<z)==((x+y)<z)"), Tr(<< "nat", "nat", "nat" >>, "(x BA y+z)==(x BA(y+z))"),
      Tr(<< "nat", "nat", "nat" >>, "(x=y==z)==((x=y)==z)") >>
    [] id = "C04" -> << Tr(<< "fun" >>, "(RP V RPx)Q(RPx)"), Tr(<< "fun" >>, "(V RP V RPx)==(V RPx)"), Tr(<< "fun", "fun" >>, "(RP V RP[x[y]])Q(RP[x[y]])"),
                        Tr(<< "fun" >>, "(RPx)Q(STx)"), Tr(<< "fun", "fun" >>, "(!(x==y))|((RPx)Q(RPy))"),
                        Tr(<< "pure", "fin", "fin" >>, "((V RPx)y z)==(x y z)"), Tr(<< "pure", "seq" >>, "((V RPx)My)==(xMy)"), Tr(<< "pure", "fin" >>, "((V RP{(x a)})y)==(x y)") >>
    [] id = "C05" -> << Tr(<< "any" >>, "(V RPx)==x"), Tr(<< "any" >>, "(RP V RPx)Q(RPx)"), Tr(<< "any", "any" >>, "(V RP[x[y]])==[x[y]]"), Tr(<< "any", "any" >>, "(x==y)|!((RPx)Q(RPy))"),
                        Tr(<< "str", "char" >>, "(V RP(x.y))==(x.y)"), Tr(<< "any" >>, "(RP[x[x]])Q(\"[\".(RPx).\";[\".(RPx).\"]]\")"),
                        Tr(<< "big", "big" >>, "(V RP[x(-y)x+0.5 x/4])==[x(-y)x+0.5 x/4]") >>
    [] id = "C06" -> <<
      Tr(<< "lst" >>, "m:RPx;y:x;y PU 9;y@0:8;y@0@0:7;(RPx)Qm"), Tr(<< "lst" >>, "m:RPx;y:x;x PU 9;x@0:8;PO x;(RPy)Qm"), Tr(<< "lst" >>, "m:RPx;({aPU 9a@0:5a@0@0:6POa}x);(RPx)Qm"),
      Tr(<< "lst" >>, "m:RPx;l:[x x];l@0@0:9;l@0PU 3;((RPx)Qm)&((RP l@1)Qm)"), Tr(<< "lst" >>, "m:RPx;l:[x];(l@0)PU 7;(RPx)Qm"), Tr(<< "lst" >>, "m:RPx;{a@0:9aPU 1}M[x x];(RPx)Qm"),
      Tr(<< "lst" >>, "m:RPx;F i[x x]{i@0:9i@0@0:3iPB 4}(RPx)Qm"), Tr(<< "lst", "lst" >>, "m:RP[x y];k:x AL y;k@0:9;kPU 8;(RP[x y])Qm"), Tr(<< "lst", "lst" >>, "m:RP[x y];k:x AE y;k@-1:9;k@0:8;(RP[x y])Qm"),
      Tr(<< "lst" >>, "m:RPx;Yx;y@0:9;(RPx)Qm"), Tr(<< "lst", "lst" >>, "m:RP[x y];[k l]:[y x];k@0:9;lPU 1;(RP[x y])Qm"), Tr(<< "str" >>, "m:x;y:x;y.:\"!\";y@0:\"Q\";mQx"), Tr(<< "lst" >>, "m:RPx;y:x@<9;y@0:9;k:RVx;k@0:9;l:x@>0;lPU 8;(RPx)Qm"),
      Tr(<< "lst" >>, "y:x;y PU y;x==(y@>1)"), Tr(<< "lst" >>, "m:RPx;f:{x};y:(f);y@0:9;(RPx)Qm"), Tr(<< "lst" >>, "m:RPx;y:[1 2];y@0:x;y@0@0:9;y@1:y@0;(RPx)Qm"), Tr(<< "lst", "lst" >>, "m:RP[x y];k:x;x::y;k@0:9;x@0:x@0;(RP[y x])Qm|(#y)=0"),
      Tr(<< "lst" >>, "m:RPx;a:x;f:{a@0:9};(fx);(RPa)Qm") >>
    [] id = "C07" -> <<
      Tr(<< "any", "any" >>, "m:RP[y x];x::y;(RP[x y])Qm"), Tr(<< "any", "any" >>, "m:RP[x y];x::y;x::y;(RP[x y])Qm"), Tr(<< "few", "few" >>, "m:RP[y x];[x y]:[y x];(RP[x y])Qm"),
      Tr(<< "flat", "small", "few" >>, "m:x;I #x{x@y:z}(!#m)|((x@y==z)&(x@(y+1)==(m@(y+1))))|(#m)=1"), Tr(<< "int", "int" >>, "m:x+y;x+:y;x=m"), Tr(<< "seq", "int" >>, "m:x AE y;x AE:y;x==m"),
      Tr(<< "few", "few", "few" >>, "[k[l m]]:[x[y z]];[k l m]==[x y z]"), Tr(<< "few", "few" >>, "[k l]:[x];(k==x)&(l==())"), Tr(<< "few" >>, "k:l:x;(k==x)&(l==x)"), Tr(<< "int" >>, "m:x;Ux;Ux;Dx;x=m+1"),
      Tr(<< "flat", "nat", "nat" >>, "m:x;I(y<#x)&(z<#x){(x@y)::(x@z)}(y>=#m)|(z>=#m)|((x@y==m@z)&(x@z==m@y))"), Tr(<< "flat", "int" >>, "m:#x;xPUy;(m+1=#x)&(POx==y)&(m=#x)"), Tr(<< "flat", "int" >>, "m:#x;xPBy;(m+1=#x)&(x@-1=y)&(m+1=#x)"),
      Tr(<< "few", "few" >>, "(1?x y):5;x==5"), Tr(<< "few", "few" >>, "m:RPy;(1?x y):5;(RPy)Qm"), Tr(<< "num" >>, "m:-x;-:x;x==m"), Tr(<< "flat" >>, "m:RVx;RV:x;x==m"), Tr(<< "tab", "few" >>, "m:x@0@0;x@v@v:y;(x@v@v==y)&((#x>1)|((#(x@0))>1)?x@0@0==m 1)"),
      Tr(<< "few" >>, "y:1;z:x;[y z]::[z y];(y==x)&(z=1)") >>
    [] id = "C08" -> <<
      Tr(<< "few", "few" >>, "a:x;b:y;f:{a:9b:8c:7};(f 1 2);[a b c]==[x y()]"), Tr(<< "any", "any" >>, "({[b a]}x y)==[y x]"), Tr(<< "any" >>, "({[a b c]}x)==[x()()]"), Tr(<< "nat" >>, "f:{a<1?0a+(f a-1)};(fx)=x*(x+1)/2"), Tr(<< "nat" >>, "({a<1?0a+(RE a-1)}x)=x*(x+1)/2"),
      Tr(<< "few", "few" >>, "f:{z:b};(f x y);z==y"), Tr(<< "few" >>, "f:{b:a(g b.1)b};g:{b:7a:8};(fx)==x"), Tr(<< "few", "few" >>, "({g}x y x y x y)==[x y x y x y]"), Tr(<< "nat", "nat" >>, "k:{a<1?b(p a-1b+1)};p:{a<1?b(k a-1b+1)};(k x y)=x+y"),
      Tr(<< "few" >>, "a:1;b:2;{a:3b:4V\"a:5\"}x;({a:3b:4V\"a:5\"}x);[a b]==[1 2]"), Tr(<< "few" >>, "a:5;({Va:7}x);a=5"), Tr(<< "few" >>, "a:x;{a:9}M,3;a==x"), Tr(<< "few" >>, "a:x;V\"a:7\";a=7"), Tr(<< "few" >>, "a:x;V{a:7};a==7"), Tr(<< "nat" >>, "m:x;k:{x+:1};(k 0);(k 0);x=m+2"),
      \* what is there before anything is assigned
      [d |-> << "pre" >>, p |-> "P RPx;P#x;P RP({x}0);V\"P RPx\";P J((PA.\"é\".n)@*x);P(x\"bcd\")", o |-> "*"],
      [d |-> << >>, p |-> "P RP[a b c d e f $_ $__ $___ $0 $1 $9 $` $' $( $) $[ $] $$ \\a \\e \\f \\g];P RP[p x y];P RP({[a b c d e f]}1)", o |-> "*"] >>
    [] id = "C09" -> <<
      Tr(<< "truth", "few" >>, "(x&y)==(x?y x)"), Tr(<< "truth", "few" >>, "(x|y)==(x?x y)"), Tr(<< "truth" >>, "(!x)=(x?0 1)"), Tr(<< "truth" >>, "I x{m:1}EL{m:0}m=(x?1 0)"), Tr(<< "truth" >>, "m:0;x&(m:1);m=(x?1 0)"), Tr(<< "truth" >>, "m:1;x|(m:0);m=(x?1 0)"),
      Tr(<< "truth", "truth" >>, "m:0;I x m:1EI y m:2EL m:3;m=(x?1(y?2 3))"), Tr(<< "nat" >>, "m:0;L x m+:1;m=x"), Tr(<< "int" >>, "m:0;L x m+:1;m=MX[0x]"), Tr(<< "seq" >>, "m:0;F i x m+:1;m=#x"), Tr(<< "seq" >>, "m:[];F i x mPBi;m==({a}Mx)"),
      Tr(<< "nat" >>, "m:0;y:x;W y{Dy Um}(m=x)&y=0"), Tr(<< "nat" >>, "m:0;T m=x{Um}m=x"), Tr(<< "truth", "nat", "nat" >>, "m:0;l:0;x?(m:1)(l:1);[m l]==(x?[1 0][0 1])"), Tr(<< "nat", "nat", "nat" >>, "m:0;x<y<(m:z);m=(x<y?z 0)|m=z"), Tr(<< "seq" >>, "m:x@-1;F i x{}i==m|!#x"), Tr(<< "tab" >>, "m:[];F[i k]x m PB[i k];(#x=1)|(m==({[a@0a@1]}Mx))"),
      Tr(<< "truth", "truth" >>, "(!(x&y))=((!x)|(!y))"), Tr(<< "truth", "truth" >>, "m:0;x&y&(m:1);m=(x?y?1 0 0)") >>
    [] id = "C10" -> Each1(<< "num", "num", "num" >>, "([x y]#z)==[x#z y#z]", BroadOps) \o Each1(<< "int", "num", "int" >>, "(x#[y[z]])==[x#y[x#z]]", BroadOps)
                     \o Each1(<< "int", "int", "int" >>, "([x y]#[z x y])==[x#z y#x y]", << "+", "-", "*", ".", "BA" >>) \o Each1(<< "num", "str" >>, "(#[x[y]])==[#x[#y]]", UnOps)
                     \o Each1(<< "rng", "int" >>, "({a}M(x#y))==({a#y}Mx)", << "+", "-", "*", "//", ".", "%" >>) \o << Tr(<< "num", "num" >>, "([x y]+())==[()()]"), Tr(<< "rng", "int" >>, "((x+y)AL[])==({a+y}Mx)|(#x)<1") >>
    [] id = "C11" -> Each1(<< "int", "int", "int" >>, "($#[x y z])==(x#y#z)", FoldOps) \o Each1(<< "int", "int", "int" >>, "(\\$#[x y z])==[x x#y x#y#z]", FoldOps) \o Each1(<< "nat", "nat", "nat" >>, "($#[x y z])==(x#y#z)", << "<", ">", "=", "<=", ">=", "!=", "LT", "Q", "NE" >>)
                     \o Each1(<< "nat", "nat", "nat" >>, "(\\$#[x y z])==[1 x#y x#y#z]", << "<", ">", "=", "<=", ">=", "!=", "LT", "Q" >>) \o Each1(<< "some", "some" >>, "(#*[x y])==[(# x)(# y)]", << "RV", "UQ", "RP", "SN", "J", "EN" >>)
                     \o << Tr(<< "nat", "nat" >>, "($**[2x y])Q(2**x**y)|(x+y)>5"), Tr(<< "int", "int" >>, "m:[x y];$+:m;m=x+y"), Tr(<< "int" >>, "($+[x])=x"), Tr(<< "int" >>, "(\\$-[x])==[x]"), Tr(<< "tab" >>, "($+ *x)==({$+a}Mx)"), Tr(<< "flat", "int" >>, "m:x;-*:m;m==(-*x)"),
                           Tr(<< "nat" >>, "[$+[]$*[]$.[]$-[]]==[0 1\"\"0]"), Tr(<< "flat" >>, "(\\$+x)@-1==($+x)|!#x"), Tr(<< "flat" >>, "(#\\$*x)=#x"), Tr(<< "tab" >>, "(#*x)==({#a}Mx)") >>
    [] id = "C12" -> Each1(<< "int", "pos" >>, "((_#y)x)==(x#y)", FoldOps) \o Each1(<< "int", "pos" >>, "((x#_)y)==(x#y)", FoldOps) \o Each1(<< "int", "pos" >>, "((_#B)x y)==(x#y)", FoldOps) \o Each1(<< "int", "pos" >>, "((_#_)y)==(y#y)", FoldOps)
                     \o Each1(<< "num" >>, "((#_)x)==(#x)", UnOps) \o << Tr(<< "int", "int", "int" >>, "((_+y*_-z)x)==(x+y*x-z)"), Tr(<< "int", "int" >>, "(($+_)[x y])=x+y"), Tr(<< "int", "int" >>, "((_<y)x)=(x<y)"), Tr(<< "flat", "int" >>, "((_+y)Mx)==({a+y}Mx)"),
                           Tr(<< "some", "small" >>, "((_@y)x)==(x@y)"), Tr(<< "int", "int" >>, "f:_+y;m:(fx);y:99;m==(fx)"), Tr(<< "int" >>, "((_+1)*2)x;(((_+1)*2)x)=(x+1)*2"), Tr(<< "int", "int", "int" >>, "((_<y<z)x)=(x<y<z)"), Tr(<< "int", "int" >>, "([_ y]@0)==_") >>
    [] id = "C13" -> << Tr(<< "str", "small" >>, "(AB y)>#x|(((x@<y).(x@>y))Qx)"), Tr(<< "lst", "small" >>, "(AB y)>#x|(((x@<y)AL(x@>y))==x)"), Tr(<< "some", "small" >>, "(x@(y+#x))==(x@y)|xN[(2,5)]"), Tr(<< "some", "small" >>, "(x@y)==(@(x@(y%#x,#x)))"), Tr(<< "some" >>, "(x@-1)==(@RVx)"), Tr(<< "seq", "small" >>, "(x@[y y])==[x@y x@y]|!#x"),
                        Tr(<< "some", "small", "small" >>, "(#(x@(y,z)))=MX[0z-y]|y<0|z<0|(#x)>1"), Tr(<< "some", "nat", "nat" >>, "(y>#x)|(z>#x)|(y>z)|(#(x@(y,z)))=z-y"), Tr(<< "some", "nat", "nat" >>, "(y>=#x)|(z>#x)|(y>=z)|(@(x@(y,z)))==(x@y)"), Tr(<< "seq" >>, "(J(x@((),())))Q(Jx)"), Tr(<< "some" >>, "(@x)==(x@0)"), Tr(<< "some" >>, "(#@>x)=#x-1"), Tr(<< "some" >>, "(#@<x)=#x-1"),
                        Tr(<< "seq", "nat" >>, "y>#x|((#(x@<y))=y)"), Tr(<< "nat", "nat" >>, "((x,())@y)=x+y"), Tr(<< "nat", "nat", "nat" >>, "((x,())@(y,y+z))==(x+y,x+y+z)"), Tr(<< "nat", "nat" >>, "((x,())@>y)==(x+y,())"), Tr(<< "nat", "nat" >>, "((x,())@<y)==(x,x+y)"), Tr(<< "rng", "small" >>, "(x@y)==(({a}Mx)@y)|!#x"), Tr(<< "rng", "small", "small" >>, "!#x|(({a}M(x@(y,z)))==(({a}Mx)@(y,z)))"),
                        Tr(<< "str", "sep" >>, "m:x@?y;m==()|((x@(m,m+#y))Qy)"), Tr(<< "str", "sep" >>, "(#(x@*y))=(yNx)"), Tr(<< "str", "sep" >>, "(#(x^y))=1+(yNx)"), Tr(<< "some", "nat" >>, "(y>=#x)|(x@?(x@y))<=y"), Tr(<< "flat", "small", "int" >>, "m:x;I #x{m@y:z}!#x|((#m)=#x&(m@y=z))") >>
    [] id = "C14" -> << Tr(<< "num", "num" >>, "(y=0)|(x//y)*y+x%y=x"), Tr(<< "num", "num" >>, "(y<=0)|(0<=x%y<y)"), Tr(<< "num", "num" >>, "(x-y)=(x+(-y))"), Tr(<< "num", "num" >>, "(x+y)=(y+x)"), Tr(<< "num", "num" >>, "(x*y)=(y*x)"), Tr(<< "num", "num", "num" >>, "(x*(y+z))=(x*y+x*z)"), Tr(<< "num", "num" >>, "(xADy)=AB(x-y)"), Tr(<< "num", "num" >>, "(xCMy)=(x>y)-(x<y)"),
                        Tr(<< "num" >>, "(ABx)*(SGx)=x"), Tr(<< "int" >>, "(HVx)+(HUx)=x"), Tr(<< "num" >>, "(SQx)=x*x"), Tr(<< "num" >>, "(|<x)<=x<1+|<x"), Tr(<< "num" >>, "(>|x)-1<x<=(>|x)"), Tr(<< "num" >>, "(ABRZx)<=ABx"), Tr(<< "num" >>, "(AB(x-RNx))<=0.5"), Tr(<< "int", "int" >>, "(xBAy)+(xBOy)=x+y"), Tr(<< "int", "int" >>, "(xBXy)=(xBOy)-(xBAy)"), Tr(<< "int" >>, "(BNx)=-1-x"),
                        Tr(<< "big", "base" >>, "((xTBy)FBy)=x"), Tr(<< "big", "base" >>, "x<0|((xTDy)FDy)=x"), Tr(<< "big", "base" >>, "x<1|((MX(xTDy))<y)"), Tr(<< "big" >>, "(FBTBx)=x"), Tr(<< "int", "nat" >>, "(x**y)=$*([x]RLy)"), Tr(<< "nat" >>, "(#,x)=x"), Tr(<< "int", "int" >>, "(#(x,y))=(y-x)|y<x"), Tr(<< "int", "int" >>, "(x\\,y)==(x,y+1)"), Tr(<< "char" >>, "(C(Ax))Qx"),
                        Tr(<< "num" >>, "(+x)=x"), Tr(<< "num" >>, "(--x)=x"), Tr(<< "num", "pos" >>, "(x/y*y)=x"), Tr(<< "nat" >>, "x=0|(BLx)=#TBx"), Tr(<< "nat", "pos" >>, "(x|<y)%y=0"), Tr(<< "nat", "pos" >>, "0<=(x>|y)-x<y"), Tr(<< "nat" >>, "(RTSQx)=x"), Tr(<< "num" >>, "(HUx)-(|<HVx)<=1"),
                        Tr(<< "huge", "huge" >>, "(y=0)|(x//y)*y+x%y=x"), Tr(<< "huge", "huge" >>, "(y=0)|(((x*y)//y)=x)"), Tr(<< "huge", "huge" >>, "((x+y)-y)=x"), Tr(<< "huge", "huge" >>, "(x-y)=-(y-x)"), Tr(<< "huge", "huge" >>, "(x*y)=(y*x)"), Tr(<< "huge", "huge" >>, "(y=0)|(0<=x%y<y)|(y<x%y<=0)"),
                        Tr(<< "huge", "huge" >>, "(x<y)+(x=y)+(x>y)=1"), Tr(<< "huge", "huge" >>, "(xCMy)=(x>y)-(x<y)"), Tr(<< "huge", "huge" >>, "(xADy)=AB(x-y)"), Tr(<< "huge", "huge" >>, "((x+y)*(x-y))=(x*x-y*y)"), Tr(<< "huge", "huge" >>, "(y<1)|((x|<y)%y)=0"), Tr(<< "huge", "huge" >>, "(y<1)|((x|<y)<=x<y+x|<y)"),
                        Tr(<< "huge", "huge" >>, "(y<1)|((x>|y)-y<x<=(x>|y))"), Tr(<< "huge", "huge" >>, "(SN[x y])==[(MN[x y]) (MX[x y])]"), Tr(<< "huge", "huge" >>, "(SQ(x+y))=(SQx)+(SQy)+2*x*y"), Tr(<< "huge", "huge" >>, "((x<y)=((-y)<(-x)))"), Tr(<< "huge" >>, "(HVx)+(HUx)=x"), Tr(<< "huge" >>, "2*(HVx)+x%2=x"),
                        Tr(<< "huge", "huge" >>, "(xBAy)+(xBOy)=x+y"), Tr(<< "huge", "huge" >>, "(xBXy)=(xBOy)-(xBAy)&((xBXy)BXy)=x"), Tr(<< "huge" >>, "(BNx)=-1-x"), Tr(<< "huge" >>, "x=0|(BLx)=#TBABx"), Tr(<< "huge" >>, "(xBA4095)=x%4096"), Tr(<< "huge" >>, "(HU(2*x))=x"), Tr(<< "huge" >>, "(DBx)=x+x"), Tr(<< "huge" >>, "(ABx)*(SGx)=x"), Tr(<< "huge" >>, "(SQx)=x*x"), Tr(<< "huge" >>, "(--x)=x"), Tr(<< "huge" >>, "x<0|((FBTBx)=x)"),
                        Tr(<< "huge" >>, "(x**3)=x*x*x"), Tr(<< "huge" >>, "(|<x)=x&(>|x)=x&(RNx)=x&(RZx)=x"), Tr(<< "huge" >>, "(V RPx)==x"), Tr(<< "huge" >>, "(10*x//10)=x"), Tr(<< "huge" >>, "(x.\"\")=x"), Tr(<< "huge", "base" >>, "((xTBy)FBy)=x"),
                        Tr(<< "huge", "base" >>, "x<0|((xTDy)FDy)=x"), Tr(<< "hug3", "hug3", "hug3" >>, "((x+y)+z)=(x+(y+z))"), Tr(<< "hug3", "hug3", "hug3" >>, "(x*(y+z))=(x*y+x*z)"), Tr(<< "huge", "nat" >>, "(x**y)=$*([x]RLy)"), Tr(<< "nat", "pos", "hug3" >>, "z<1|((x**y)%z)=($*([x]RLy))%z"), Tr(<< "hug3", "hug3", "hug3" >>, "!((x<y)&(y<z))|(x<z)"),
                        Tr(<< "hug3", "hug3", "hug3" >>, "$<=SN[x y z]"),
                        Tr(<< "flt", "flt" >>, "(x+y)=(y+x)"), Tr(<< "flt", "flt" >>, "(x*y)=(y*x)"), Tr(<< "flt", "flt" >>, "(x-y)=-(y-x)"), Tr(<< "flt", "flt" >>, "(x<y)+(x=y)+(x>y)=1"), Tr(<< "flt", "flt" >>, "(xCMy)=(x>y)-(x<y)"), Tr(<< "flt", "flt" >>, "(xADy)=AB(x-y)"), Tr(<< "flt", "flt" >>, "(y=0)|(0<=x%y<=y)|(y<=x%y<=0)"), Tr(<< "flt", "flt" >>, "(y=0)|((x//y)=|<(x//y))"), Tr(<< "flt", "flt" >>, "(x<=y)=((-y)<=(-x))"), Tr(<< "flt", "flt" >>, "(SN[x y])==[(MN[x y]) (MX[x y])]|x=y"), Tr(<< "flt", "flt" >>, "(y=0)|((-x)/y)=(x/(-y))"), Tr(<< "flt", "flt" >>, "((x*2)+(y*2))=2*(x+y)"), Tr(<< "flt3", "flt3", "flt3" >>, "(x>y)|((x+z)<=(y+z))"), Tr(<< "flt3", "flt3", "flt3" >>, "(x>y)|(z<0)|((x*z)<=(y*z))"), Tr(<< "flt3", "flt3", "flt3" >>, "(x>y)|(z<=0)|((x/z)<=(y/z))"), Tr(<< "flt3", "flt3", "flt3" >>, "!((x<y)&(y<z))|(x<z)"), Tr(<< "flt" >>, "(V RPx)=x"), Tr(<< "flt" >>, "(+x)=x"), Tr(<< "flt" >>, "(--x)=x"), Tr(<< "flt" >>, "(x-x)=0"), Tr(<< "flt" >>, "x=0|(x/x)=1"), Tr(<< "flt" >>, "(DBx)=x+x"), Tr(<< "flt" >>, "(x+x)/2=x"), Tr(<< "flt" >>, "(SQx)=x*x"), Tr(<< "flt" >>, "(ABx)*(SGx)=x"), Tr(<< "flt" >>, "(|<x)<=x<=>|x"), Tr(<< "flt" >>, "(>|x)=-|<(-x)"), Tr(<< "flt" >>, "(HVx)=|<(x/2)"), Tr(<< "flt" >>, "(HUx)=>|(x/2)"), Tr(<< "flt" >>, "(RZx)=(SGx)*|<ABx"), Tr(<< "flt" >>, "(AB(x-RNx))<=0.5"), Tr(<< "flt" >>, "x=0|(/x)=1/x"), Tr(<< "flt" >>, "(x.\"\")=x"), Tr(<< "flt" >>, "($+[x x])=DBx"), Tr(<< "flt" >>, "(x%1)=x-|<x|x<0"),
                        Tr(<< "rel" >>, "(SI(-x))=-SIx"), Tr(<< "rel" >>, "(CO(-x))=COx"), Tr(<< "rel" >>, "(TA(-x))=-TAx"), Tr(<< "rel" >>, "(AT(-x))=-ATx"), Tr(<< "rel" >>, "(ATx)=(x AT 1)"), Tr(<< "rel" >>, "x<=0|((RTx)=(x**0.5)&(RTx)=(2RTx))"), Tr(<< "rel" >>, "(SEx)=/COx"), Tr(<< "rel" >>, "x=0|((CSx)=/SIx&(CTx)=/TAx)"), Tr(<< "rel" >>, "(AB((SQSIx)+(SQCOx)-1))<0.000000000000001"), Tr(<< "rel" >>, "x<=0|(AB((LN EX LNx)-LNx))<0.00000001"), Tr(<< "rel" >>, "(1RTx)=x"), Tr(<< "rel" >>, "(AB((DGRDx)-x))<=(ABx)/(10**14)"), Tr(<< "rel" >>, "x<=0|(AB((LNx)/(LN10)-LDx))<0.00000000001"), Tr(<< "rel" >>, "x<=0|(AB((LNx)/(LN2)-LBx))<0.00000000001"),
                        Tr(<< "nat" >>, "(LB(2**x))=x&(LD(10**x))=x&(RT(x*x))=x&(3RT(x**3))>x-0.0000001"), Tr(<< >>, "[SI0CO0TA0(AT0)EX0LN1LB1LD1]==[0 1 0 0 1 0 0 0]"), Tr(<< >>, "(DGPI)=180&(RD180)=PI&(4*AT1)=PI&(0AT(-1))=PI"),
                        Tr(<< "rel", "rel" >>, "(x<0)|((x*x)**y)<0|((x**y)=(x**(+y)))"), Tr(<< "rel", "rel" >>, "(x AT y)<=PI&(x AT y)>=-PI") >>
    [] id = "C15" -> << Tr(<< "cmp", "cmp" >>, "(x<y)+(x=y)+(x>y)=1"), Tr(<< "scmp", "scmp" >>, "(xLTy)+(xQy)+(xGTy)=1"), Tr(<< "lcmp", "lcmp" >>, "(x<y)+(x=y)+(x>y)=1"), Tr(<< "lcmp", "lcmp" >>, "(xLTy)+(xQy)+(xGTy)=1"), Tr(<< "cmp", "cmp" >>, "(x<=y)=((x<y)|(x=y))"), Tr(<< "cmp", "cmp" >>, "(x!=y)=!(x=y)"), Tr(<< "cmp", "cmp" >>, "(x<y)=(y>x)"), Tr(<< "scmp", "scmp" >>, "(xLEy)=((xLTy)|(xQy))"),
                        Tr(<< "cmp", "cmp", "cmp" >>, "!((x<y)&(y<z))|(x<z)"), Tr(<< "scmp", "scmp", "scmp" >>, "!((xLTy)&(yLTz))|(xLTz)"), Tr(<< "lcmp", "lcmp", "lcmp" >>, "!((x<y)&(y<z))|(x<z)"), Tr(<< "lcmp", "lcmp" >>, "(xNEy)=!(xQy)"), Tr(<< "any" >>, "x==x"), Tr(<< "any", "any" >>, "(x==y)=(y==x)"), Tr(<< "seq", "seq" >>, "(x#<y)+(x#=y)+(x#>y)=1"),
                        Tr(<< "cmp", "cmp", "cmp" >>, "$<=SN[x y z]"), Tr(<< "scmp", "scmp", "scmp" >>, "$LE(SS[x y z])"), Tr(<< "cmp", "cmp", "cmp" >>, "$>=DN[x y z]"), Tr(<< "scmp", "scmp", "scmp" >>, "$GE(DS[x y z])"), Tr(<< "cmp", "cmp", "cmp" >>, "m:SN[x y z];((xNm)>0)&((yNm)>0)&((zNm)>0)&(#m=3)"), Tr(<< "cmp", "cmp", "cmp" >>, "m:MX[x y z];(m>=x)&(m>=y)&(m>=z)"),
                        Tr(<< "cmp", "cmp", "cmp" >>, "m:MN[x y z];(m<=x)&(m<=y)&(m<=z)"), Tr(<< "flat" >>, "(RVSNx)=(DNx)"), Tr(<< "flat" >>, "(#UQx)<=#x"), Tr(<< "flat", "int" >>, "(yNUQx)=(yNx>0)"), Tr(<< "cmp", "cmp" >>, "(xCMy)=(x>y)-(x<y)"), Tr(<< "flat" >>, "({a}SKx)==SNx"), Tr(<< "strs" >>, "(SSx)==(RVDSx)"), Tr(<< "flat" >>, "({-a}SKx)=(DNx)"), Tr(<< "flat" >>, "({0}SKx)==x"), Tr(<< "flat", "int" >>, "(yNx)=#({a=y}FIx)") >>
    [] id = "C16" -> << Tr(<< "fn", "seq" >>, "(#(xMy))=#y"), Tr(<< "fn", "some", "small" >>, "((xMy)@z)==(x(y@z))|(RPx)N[\"{[a;b]}\"\"{b}\"]|yN[(2,5)]"), Tr(<< "pred", "flat" >>, "(#(xFIy))+(#(xFNy))=#y"), Tr(<< "fn", "seq" >>, "(xMJy)Q(J(xMy))"), Tr(<< "fn", "flat" >>, "(xMEy)==(xMZ(,#y)y)"), Tr(<< "fn", "flat" >>, "(xMPy)==(xMZy(y@>1))"), Tr(<< "fn", "tab" >>, "(xMMy)==({xMa}My)"),
                        Tr(<< "fn", "tab" >>, "(xMFy)==(FL(xMy))"), Tr(<< "flat", "int" >>, "({b>y}FXx)==({x@a>y}FI,#x)"), Tr(<< "pred", "str" >>, "(xFJy)Q(J(xFIy))"), Tr(<< "flat" >>, "(FXx)==({x@a}FI,#x)"), Tr(<< "fn", "tab" >>, "(#(xMUy))=#y"), Tr(<< "flat" >>, "({a+1}MSx)=($+({a+1}Mx))|!#x"), Tr(<< "nat", "nat" >>, "({a*10+b}MC[x y])==({x:a({x*10+a}M,y)}M,x)"), Tr(<< "nat", "nat" >>, "(#({a.b}MC[x y]))=x"),
                        Tr(<< "fn", "seq" >>, "(yMx)==(xMy)"), Tr(<< "pred", "flat" >>, "({xFIa}M[y])==[xFIy]"), Tr(<< "fn", "flat" >>, "m:0;{m+:1}My;m=#y"), Tr(<< "flat" >>, "m:[];{mPBa}Mx;m==x"), Tr(<< "fn", "flat" >>, "(#(xSKy))=#y"), Tr(<< "flat" >>, "(#({a}DKx))=#x"), Tr(<< "str" >>, "({a}MR`.`x)Q({a}Mx)"), Tr(<< "str" >>, "(#({a}MR`.`x))=#x") >>
    [] id = "C17" -> << Tr(<< "lst" >>, "(RVRVx)==x"), Tr(<< "rng" >>, "(RVRVx)==({a}Mx)"), Tr(<< "seq" >>, "#RVx=#x"), Tr(<< "lst", "lst" >>, "#(xALy)=(#x)+#y"), Tr(<< "lst", "lst" >>, "((xALy)@<#x)==x|!#x"), Tr(<< "lst", "dat" >>, "((xAEy)@-1)==y"), Tr(<< "lst", "dat" >>, "(@(xPEy))==y"), Tr(<< "tab" >>, "(Z Zx)==x"), Tr(<< "flat", "pos" >>, "($AL(x<>y))==x|!#x"), Tr(<< "str", "pos" >>, "(J(x<>y))Qx"), Tr(<< "some", "pos" >>, "(#(xCHy))=y"), Tr(<< "some", "pos" >>, "((J(xCHy))Q(Jx))"),
                        Tr(<< "flat", "flat" >>, "#(xCPy)=(#x)*#y"), Tr(<< "flat" >>, "#PMx=$*(\\,#x)"), Tr(<< "flat" >>, "#(xCB2)=(#x)*((#x)-1)/2"), Tr(<< "seq" >>, "#(ENx)=#x"), Tr(<< "lst" >>, "#(FAx)>=0"), Tr(<< "lst", "nat" >>, "#(xRLy)=(#x)*y"), Tr(<< "flat" >>, "$AL(UWx)==(SNx)|(#$AL(UWx))=#x"), Tr(<< "flat", "pos" >>, "#(xUWy)=y"), Tr(<< "seq" >>, "#PZx=(2*#x-1)|!#x"), Tr(<< "seq" >>, "#RFx=2*#x"), Tr(<< "seq" >>, "(RFx)==(RVRFx)"), Tr(<< "str" >>, "(RFx)Q(RVRFx)"), Tr(<< "str" >>, "(PZx)Q(RVPZx)"),
                        Tr(<< "flat", "flat" >>, "#(xZy)=MN[#x#y]"), Tr(<< "flat", "flat" >>, "#([x y]ZD0)=MX[#x#y]"), Tr(<< "flat", "small", "int" >>, "!#x|((xRAyz)@y)=z"), Tr(<< "flat", "nat", "int" >>, "(y>=#x)|#(xRAyz)=#x"), Tr(<< "flat" >>, "#(xWVx)=2*#x"), Tr(<< "flat", "int" >>, "(yN(xRMy))=0"), Tr(<< "flat", "nat" >>, "($AL(x^@y))==x|!#x|y>#x"), Tr(<< "nat" >>, "(#CGx)=x"), Tr(<< "nat", "nat" >>, "(#(xCGy))=x"), Tr(<< "nat" >>, "($+FAEYx)=x"), Tr(<< "nat", "nat" >>, "($+FL(xOGy))=x*y"), Tr(<< "nat" >>, "(FA(OGx))==[1]RLx*x"), Tr(<< "flat" >>, "((Hx)AE(x@-1))==x|!#x"), Tr(<< "flat" >>, "((Sx)PE(x@0))==x|!#x"),
                        Tr(<< "flat", "int" >>, "m:#x;xPUy;(#x=m+1)&(@x=y)"), Tr(<< "flat", "int" >>, "xPBy;(x@-1=y)"), Tr(<< "flat" >>, "m:#x;y:@x;z:POx;!m|((z==y)&(#x)=m-1)"), Tr(<< "flat" >>, "m:#x;y:x@-1;z:DQx;!m|((z==y)&(#x)=m-1)"), Tr(<< "str", "sep" >>, "((x^y)Jy)Qx"), Tr(<< "flat" >>, "(#(xJW0))=1+#x+#(Jx)|!#x"), Tr(<< "flat" >>, "($+FLx)=$+x|!#x") >>
    [] id = "C18" -> << Tr(<< "str", "sep", "sep" >>, "(xRyz)Q((x^y)Jz)"), Tr(<< "str" >>, "(UCLCx)Q(UCx)"), Tr(<< "str" >>, "(SCSCx)Qx"), Tr(<< "str" >>, "(RVRVx)Qx"), Tr(<< "str", "str" >>, "#(x.y)=(#x)+#y"), Tr(<< "str", "str" >>, "((x.y)@<#x)Qx|!#x"), Tr(<< "str", "nat" >>, "#(xXy)=y*#x"), Tr(<< "str", "sep" >>, "(xTRyy)Qx"), Tr(<< "str", "sep" >>, "(yNx)=#(x@*y)"), Tr(<< "str", "sep" >>, "(yN(xRMy))=0"), Tr(<< "str", "sep" >>, "(xRMy)Q(xRy\"\")"),
                        Tr(<< "str" >>, "(||x)Q(|><|x)"), Tr(<< "str" >>, "((|>x)=(||x))"), Tr(<< "str" >>, "#(||x)<=#x"), Tr(<< "str" >>, "(J^x)Qx"), Tr(<< "str", "sep" >>, "(x^y)==(x^(Xy))"), Tr(<< "str", "sep" >>, "(xRy\"-\")Q(xR(Xy)\"-\")"), Tr(<< "str" >>, "(xR`.`{a})Qx"), Tr(<< "str" >>, "(xR`.``&`)Qx"), Tr(<< "str" >>, "((`.`MR{a}x)==^x)"), Tr(<< "str" >>, "(xR`(.)(.)``\\2\\1`)Q(xR`..`RV_)"), Tr(<< "str", "sep" >>, "((x~(Xy))==())=((yNx)=0)"),
                        Tr(<< "str" >>, "x~`.`;($0Q(x@0))|!#x"), Tr(<< "str", "sep" >>, "x~(Xy);(yNx)=0|(($`.$0.$')Qx)"), Tr(<< "str" >>, "(x~=(Xx))"), Tr(<< "str" >>, "(x~=`.*`)=!(n N x)"), Tr(<< "str", "sep" >>, "(xWRy)Q(y.x.y)"), Tr(<< "str", "sep" >>, "(xDCy)Q({aNy?\"\"a}MJx)"), Tr(<< "str" >>, "(TMx)Q(x@(1,-1+#x))|#x<2"), Tr(<< "char" >>, "(C(Ax))Qx"), Tr(<< "str" >>, "(x.\"\")Qx"), Tr(<< "str", "pos" >>, "(J(x<>y))Qx"), Tr(<< "strs", "sep" >>, "(#(xJy))=($+#*x)+(#y)*((#x)-1)|!#x") >>
    [] id = "C19" -> << Tr(<< "any", "any" >>, "(ST[x y])Q(\"[\".(RPx).\";\".(RPy).\"]\")"), Tr(<< "any" >>, "(#STx)>=0"), Tr(<< "str" >>, "(STx)Qx"), Tr(<< "any" >>, "(ST[])Q\"[]\""), Tr(<< "str", "str" >>, "([x y]J\",\")Q(x.\",\".y)") >>
    [] id = "C20" -> Each1(<< "fin", "fin" >>, "x#y;1", << "+", "-", "*", "/", "//", "%", ".", "@", "@<", "@>", "AE", "AL", "J", "^", "<>", "CH", "TB", "FB", "~", "N", "<", "LT", "#=", "M", "FI", "SK", "R1", "RA 0", "TR\"a\"", "WV", "UW", "CP", "Z", "H", "S", "PK", "X", "WR", "||", "TM", "BA", "CM", "**", "MS", "MJ", "ME", "MP", "MM", "MU", "PU", "PB", ":", "::", "==", "&", "?2", "TD", "FD", "RM", "DC", "@?", "@*", "^@" >>)
                     \o Each1(<< "anyfin" >>, "# x;1", << "+", "-", "#", "A", "C", "AB", "SG", "FB", "TB", "HV", "SQ", "BN", "|<", "||", "UC", "TC", "X", ".", "K", "^", "<>", "CH", "J", "RF", "PZ", "QR", "Z", "H", "S", "WV", "UW", "TD", "FD", "PO", "DQ", "MX", "MN", "SN", "SS", "UQ", "EN", "FL", "FA", "RP", "ST", "!", "\\!", "@", "@<", "@>", "U", "D", "++", "--", "RV", "EY", "HU", "IC", "FJ", "FX", "$+", "\\$.", "-*" >>)
    [] id = "C23" -> <<
      Tr(<< "pick" >>, "((RCx)N x)>0"), Tr(<< "pick" >>, "y:x;z:RCx;x==y"), Tr(<< "pick" >>, "y:x;z:SHx;x==y"), Tr(<< "pick" >>, "(#SHx)=#x"), Tr(<< "pick" >>, "k:SHx;$&({(aNk)=(aNx)}MJx)|#x=0"),
      Tr(<< "pick" >>, "(SS({RPa}M SHx))==(SS({RPa}Mx))"), Tr(<< "pick" >>, "z:SHx;$&({(aN x)>0}Mz)"), Tr(<< "pos" >>, "0<=(RRx)<x"), Tr(<< "pos" >>, "k:RRx;(k=k//1)&(k>=0)&(k<x)"),
      Tr(<< "small", "small" >>, "x>=y|(x<=(xRRy)<y)"), Tr(<< "pos" >>, "(()RRx)<x"), Tr(<< "small" >>, "(x RR x+1)==x"), Tr(<< "pos", "pos" >>, "k:RR[x[y]];(#k=2)&((k@0)<x)&((k@1@0)<y)"),
      Tr(<< "pos", "pos" >>, "k:[x y]RR 9;(#k=2)&(x<=k@0<9)&(y<=k@1<9)"), Tr(<< "pos" >>, "k:1RR[x+1 x+2];(k@0<=x)&(k@1<x+2)"), Tr(<< >>, "0<=r<1"), Tr(<< >>, "k:r;k==k"), Tr(<< >>, "k:[r r];(0<=k@0<1)&(0<=k@1<1)"),
      Tr(<< "seed" >>, "r:x;k:RR3;r:x;k=RR3"), Tr(<< "seed", "pick" >>, "r:x;k:SHy;r:x;k==SHy"), Tr(<< "seed", "pick" >>, "r:x;k:RCy;r:x;k==RCy"), Tr(<< "seed" >>, "r:x;k:r;r:x;k==r"),
      Tr(<< "seed" >>, "r:x;k:[RR3 RR3];r:x;k==[RR3 RR3]"), Tr(<< "seed", "seed" >>, "r:x;k:RR3;r:y;l:RR2;r:x;k=RR3"), Tr(<< "seed" >>, "f:{r:a;RR3};(fx)=(fx)"), Tr(<< "seed" >>, "r:x;k:r;l:RR3;r:x;(k==r)&l=RR3"),
      Tr(<< "pick" >>, "(({RCa}x)N x)>0"), Tr(<< "pick" >>, "(((RC_)x)N x)>0"), Tr(<< "pick", "pick" >>, "k:RC*[x y];((k@0)N x)>0&((k@1)N y)>0"), Tr(<< "pick", "pick" >>, "k:{RCa}M[x y];((k@0)N x)>0&((k@1)N y)>0"), Tr(<< "pos" >>, "k:x;kRR:9;x<=k<9"),
      Tr(<< >>, "(RR1)=0"), Tr(<< "few" >>, "(RC[x])==x"), Tr(<< "few" >>, "(SH[x])==[x]"), Tr(<< >>, "[(SH[])(SH\"\")]==[[]\"\"]"), Tr(<< "pick" >>, "k:0;L 2{kAE:RCx};$&({(aN x)>0}M(k@>1))|#k=1") >>
    \* programs all of whose outcomes the implementation must show
    [] id = "C23cover" -> [j \in DOMAIN Covers |-> [d |-> << >>, p |-> "P RP(" \o Covers[j] \o ");()", o |-> "*"]]
    [] OTHER -> << >>
================================================================================
