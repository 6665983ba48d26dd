From c92bde3132011a5df2fa78bf5332c644d3c7b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/29] =?UTF-8?q?fix:=20leave=20the=20loop=20context=20aft?=
 =?UTF-8?q?er=20a=20'=D0=9F=D0=BE=D0=BA=D0=B0'=20loop?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..9bdef38 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -240,10 +240,10 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
         setLoopFlag(false, yylex)
     }
     | While expr Loop { setLoopFlag(true, yylex) } opt_body EndLoop {
-        $$ = &LoopStatement{
-            WhileExpr: $2,
+        $$ = &LoopStatement{ WhileExpr: $2,
             Body: $5,
         }
+        setLoopFlag(false, yylex)
 };
 
 
diff --git a/ast/y.go b/ast/y.go
index 34afd52..f5f16e1 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -997,10 +997,10 @@ yydefault:
 		yyDollar = yyS[yypt-6 : yypt+1]
 //line .\grammar.y:242
 		{
-			yyVAL.stmt_loop = &LoopStatement{
-				WhileExpr: yyDollar[2].stmt,
-				Body:      yyDollar[5].opt_body,
+			yyVAL.stmt_loop = &LoopStatement{WhileExpr: yyDollar[2].stmt,
+				Body: yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 93f38a135a916713a48413090836874d8d5937ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 02/29] =?UTF-8?q?fix:=20keep=20the=20branches=20of=20?=
 =?UTF-8?q?=D0=98=D0=BD=D0=B0=D1=87=D0=B5=D0=95=D1=81=D0=BB=D0=B8=20in=20s?=
 =?UTF-8?q?ource=20order?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 9bdef38..a817142 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -203,10 +203,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
         | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
+             $$ = append(Statements{&IfStatement{
                 Expression: $2,
                 TrueBlock:  $4,
-            })
+            }}, $5...)
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index f5f16e1..60e242a 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -926,10 +926,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
+			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
 				TrueBlock:  yyDollar[4].opt_body,
-			})
+			}}, yyDollar[5].opt_elseif_list...)
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From b5b702065bb633131ddc05c9e954b9b8ac257002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 03/29] fix: a body starting with a separator no longer
 inherits statements of an earlier body

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index a817142..bc64564 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -155,8 +155,8 @@ body: stmt { $$ = Statements{$1}}
             }
         }
         if $3 != nil {
-            $$ = append($$, $3) 
-        }
+            $$ = append($1, $3) 
+        } else { $$ = $1 }
     }
     
 ;
diff --git a/ast/y.go b/ast/y.go
index 60e242a..178bfe0 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -846,7 +846,9 @@ yydefault:
 				}
 			}
 			if yyDollar[3].stmt != nil {
-				yyVAL.body = append(yyVAL.body, yyDollar[3].stmt)
+				yyVAL.body = append(yyDollar[1].opt_body, yyDollar[3].stmt)
+			} else {
+				yyVAL.body = yyDollar[1].opt_body
 			}
 		}
 	case 20:
-- 
2.43.0


From 598f2b5f75e2b26b0c4656654001153084c26a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 04/29] =?UTF-8?q?fix:=20give=20all=20comparison=20operator?=
 =?UTF-8?q?s=20one=20precedence=20level,=20above=20=D0=9D=D0=95?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y |  10 ++---
 ast/y.go      | 111 ++++++++++++++++++++++++--------------------------
 2 files changed, 58 insertions(+), 63 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index bc64564..1066057 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -68,12 +68,12 @@ package ast
 %nonassoc LOW_PREC /* самый низкий приоритет */
 %left OR
 %left And
-%left NeEQ
-%left LE
-%left GE
 %right Not
-%left EQUAL
-%left '>' '<'
+
+
+/* операции сравнения равноприоритетны */
+%left EQUAL NeEQ '>' '<' LE GE
+
 %left '+' '-'
 %left '*' '/' '%'
 %right UNARMinus UNARYPlus /* самый высокий приоритет */
diff --git a/ast/y.go b/ast/y.go
index 178bfe0..06fbaee 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,45 +182,45 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 618
+const yyLast = 561
 
 var yyAct = [...]uint8{
 	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
 	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
 	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
 	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 116, 7,
-	55, 95, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 116, 4, 86, 98, 18, 131, 100, 101,
+	66, 63, 67, 68, 64, 65, 91, 92, 95, 7,
+	55, 86, 116, 116, 61, 62, 56, 57, 58, 59,
+	60, 30, 140, 116, 116, 98, 177, 131, 100, 101,
 	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 116, 94, 113, 30, 41, 61, 62,
-	56, 57, 58, 59, 60, 177, 140, 90, 70, 41,
-	127, 58, 59, 60, 31, 165, 70, 130, 126, 146,
-	143, 44, 97, 52, 51, 153, 129, 42, 7, 114,
-	40, 99, 89, 133, 162, 140, 139, 70, 170, 31,
-	134, 135, 85, 83, 147, 151, 132, 7, 7, 204,
-	70, 163, 156, 157, 77, 210, 158, 152, 181, 154,
-	145, 88, 52, 51, 168, 198, 164, 123, 84, 166,
-	178, 169, 149, 159, 176, 125, 171, 124, 176, 7,
-	180, 52, 51, 7, 182, 51, 52, 51, 186, 56,
-	57, 58, 59, 60, 7, 7, 118, 137, 189, 192,
-	193, 187, 191, 188, 201, 190, 6, 7, 174, 200,
-	46, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 54, 139, 209, 136, 26, 211, 51, 116, 52,
-	51, 13, 21, 172, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 194, 52, 51,
-	47, 2, 184, 36, 37, 39, 173, 38, 23, 31,
-	52, 51, 30, 35, 34, 195, 25, 207, 3, 121,
-	20, 26, 42, 1, 16, 50, 48, 13, 21, 11,
-	27, 44, 12, 28, 197, 150, 33, 32, 41, 87,
-	29, 15, 14, 96, 167, 9, 30, 17, 10, 36,
-	37, 39, 0, 38, 23, 31, 79, 0, 0, 35,
+	112, 179, 175, 44, 94, 113, 18, 41, 33, 32,
+	58, 59, 60, 41, 90, 4, 30, 44, 70, 170,
+	127, 36, 37, 39, 31, 38, 70, 130, 126, 165,
+	146, 35, 34, 52, 51, 153, 129, 42, 7, 89,
+	143, 114, 134, 133, 181, 116, 139, 70, 168, 123,
+	204, 135, 85, 83, 147, 151, 132, 7, 7, 31,
+	70, 99, 156, 157, 97, 210, 158, 152, 88, 154,
+	145, 56, 57, 58, 59, 60, 164, 40, 84, 166,
+	162, 169, 52, 51, 176, 198, 171, 140, 176, 7,
+	180, 52, 51, 7, 182, 51, 178, 163, 186, 159,
+	201, 77, 52, 51, 7, 7, 52, 51, 189, 192,
+	193, 187, 191, 188, 125, 190, 149, 7, 174, 200,
+	194, 205, 203, 7, 202, 43, 30, 208, 206, 139,
+	25, 124, 139, 209, 118, 26, 211, 51, 116, 52,
+	51, 13, 21, 137, 27, 44, 12, 28, 52, 51,
+	33, 32, 41, 52, 51, 15, 14, 173, 6, 52,
+	51, 54, 46, 36, 37, 39, 207, 38, 23, 31,
+	47, 2, 30, 35, 34, 136, 25, 172, 184, 121,
+	20, 26, 42, 195, 3, 1, 16, 13, 21, 50,
+	27, 44, 12, 28, 48, 11, 33, 32, 41, 197,
+	150, 15, 14, 87, 29, 96, 30, 167, 9, 36,
+	37, 39, 17, 38, 23, 31, 79, 10, 0, 35,
 	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
 	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
 	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 63, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 36, 37, 39, 0,
+	0, 0, 0, 35, 34, 21, 0, 0, 44, 0,
+	20, 0, 42, 33, 32, 41, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
 	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
 	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
 	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
@@ -241,45 +241,40 @@ var yyAct = [...]uint8{
 	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
 	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
 	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 63, 67, 68, 0, 0, 0, 0, 63, 0,
-	68, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 44, 0,
-	0, 0, 0, 33, 32, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 0, 0, 0, 0, 0, 35, 34,
+	60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 234, -1000, -17, 494, -1000,
+	198, -1000, -1000, 198, -1000, 224, -1000, -17, 494, -1000,
 	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 84, -1000, 311, 278, 311, 244, 123,
-	2, 89, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -11, -1000, -1000, 234, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 78, -1000, 311, 311, 311, 311,
+	311, 311, -1000, 70, -1000, 311, 278, 311, 244, 123,
+	-11, 86, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
+	-1000, 22, -14, -1000, -1000, 224, -1000, -1000, 244, -1000,
+	-1000, -1000, -1000, 311, 88, -1000, 311, 311, 311, 311,
 	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 56, -1000, 296, -1000, 465, 178,
-	473, 441, 229, 149, 159, 157, 311, -1000, 311, -1000,
+	494, -50, -1000, 311, 58, -1000, 501, -1000, 465, 206,
+	473, 441, 229, 121, 203, 186, 311, -1000, 311, -1000,
 	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	44, 44, -1000, -1000, -1000, 124, 124, 35, 330, 501,
-	521, 528, 296, 1, -1000, 311, -1000, 244, 111, 311,
-	-1000, -1000, 77, -1000, -34, -40, 47, 362, 311, 46,
-	402, -1000, -1000, 148, 53, 433, 244, 244, 170, 155,
-	-1000, 116, 116, -1000, -1000, 42, -1000, 311, 139, 311,
-	107, -50, -1000, 65, -1000, -1000, 224, 167, -1000, -1000,
-	19, 55, -1000, 152, 18, -1000, 402, 132, 244, 394,
-	-1000, -44, 244, -1000, -1000, 48, 116, 561, -1000, 48,
-	311, -1000, 234, 244, 244, -1000, 215, -1000, 55, -1000,
-	145, 337, 148, 172, -1000, 145, 244, 129, 149, -1000,
-	-1000, -1000, 244, 246, 149, 212, 109, -1000, 212, -1000,
+	33, 33, -1000, -1000, -1000, 96, 96, 96, 330, 501,
+	96, 96, 96, 1, -1000, 311, -1000, 244, 103, 311,
+	-1000, -1000, 119, -1000, -34, -40, 57, 362, 311, 47,
+	402, -1000, -1000, 182, 53, 433, 244, 244, 170, 171,
+	-1000, 152, 152, -1000, -1000, 46, -1000, 311, 113, 311,
+	78, -50, -1000, 59, -1000, -1000, 215, 167, -1000, -1000,
+	19, 26, -1000, 168, 18, -1000, 402, 108, 244, 394,
+	-1000, -44, 244, -1000, -1000, 14, 152, 56, -1000, 14,
+	311, -1000, 224, 244, 244, -1000, 178, -1000, 26, -1000,
+	155, 337, 182, 158, -1000, 155, 244, 120, 121, -1000,
+	-1000, -1000, 244, 235, 121, 212, 109, -1000, 212, -1000,
 	-1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 240, 5, 63, 288, 287, 285, 6, 284, 283,
-	21, 11, 15, 280, 10, 13, 16, 20, 279, 0,
-	275, 12, 14, 8, 274, 2, 269, 66, 120, 266,
-	7, 265, 264, 3, 263, 258, 196, 255, 242, 223,
-	214, 211, 187,
+	0, 250, 5, 95, 297, 292, 288, 6, 287, 285,
+	21, 11, 15, 284, 10, 13, 16, 20, 283, 0,
+	280, 12, 14, 8, 279, 2, 275, 86, 157, 274,
+	7, 269, 266, 3, 265, 264, 238, 263, 258, 257,
+	255, 241, 223,
 }
 
 var yyR1 = [...]int8{
-- 
2.43.0


From 752468d8c3492f8afa21d517939988725a297bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 05/29] =?UTF-8?q?fix:=20keep=20unary=20minus=20and=20?=
 =?UTF-8?q?=D0=9D=D0=95=20on=20every=20kind=20of=20operand?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_struct.go | 48 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..caf7b2d 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -162,11 +162,13 @@ type TernaryStatement struct {
 	Expression Statement
 	TrueBlock  Statement
 	ElseBlock  Statement
+	addStatementField
 }
 
 type ItemStatement struct {
 	Item   Statement
 	Object Statement
+	addStatementField
 }
 
 type GoToStatement struct {
@@ -194,37 +196,37 @@ func (p *ParamStatement) DefaultValue(value Statement) *ParamStatement {
 }
 
 func (e *ExpStatement) UnaryMinus() interface{} {
-	e.unaryMinus = true
+	e.unaryMinus = !e.unaryMinus
 	return e
 }
 
 func (e *ExpStatement) Not() interface{} {
-	e.not = true
+	e.not = !e.not
 	return e
 }
 
 func (e ExprStatements) Not() interface{} {
-	e.not = true
+	e.not = !e.not
 	return e
 }
 
 func (e VarStatement) UnaryMinus() interface{} {
-	e.unaryMinus = true
+	e.unaryMinus = !e.unaryMinus
 	return e
 }
 
 func (e VarStatement) Not() interface{} {
-	e.not = true
+	e.not = !e.not
 	return e
 }
 
 func (e CallChainStatement) UnaryMinus() interface{} {
-	e.unaryMinus = true
+	e.unaryMinus = !e.unaryMinus
 	return e
 }
 
 func (e CallChainStatement) Not() interface{} {
-	e.not = true
+	e.not = !e.not
 	return e
 }
 
@@ -234,8 +236,38 @@ func (e CallChainStatement) IsMethod() bool {
 	return ok
 }
 
+func (e ExprStatements) UnaryMinus() interface{} {
+	e.unaryMinus = !e.unaryMinus
+	return e
+}
+
+func (n MethodStatement) UnaryMinus() interface{} {
+	n.unaryMinus = !n.unaryMinus
+	return n
+}
+
+func (e ItemStatement) UnaryMinus() interface{} {
+	e.unaryMinus = !e.unaryMinus
+	return e
+}
+
+func (e ItemStatement) Not() interface{} {
+	e.not = !e.not
+	return e
+}
+
+func (e TernaryStatement) UnaryMinus() interface{} {
+	e.unaryMinus = !e.unaryMinus
+	return e
+}
+
+func (e TernaryStatement) Not() interface{} {
+	e.not = !e.not
+	return e
+}
+
 func (n MethodStatement) Not() interface{} {
-	n.not = true
+	n.not = !n.not
 	return n
 }
 
-- 
2.43.0


From 6a1751b2963f5d63cf608047f5eaabe804553eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 06/29] fix: print numbers with their fractional part

---
 ast/ast_print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..a09c068 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -150,8 +151,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
-	case float64, float32:
-		return fmt.Sprintf("%.0f", val)
+	case float64:
+		return strconv.FormatFloat(val, 'f', -1, 64)
+	case float32:
+		return strconv.FormatFloat(float64(val), 'f', -1, 32)
 	case int, int64, int32:
 		return fmt.Sprintf("%d", val)
 	case string:
-- 
2.43.0


From 3e4f74de45d154672a8ca337f068a4dc1c61330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 07/29] =?UTF-8?q?fix:=20print=20unary=20minus=20and=20?=
 =?UTF-8?q?=D0=9D=D0=95=20of=20every=20operand,=20with=20the=20parentheses?=
 =?UTF-8?q?=20they=20need?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index a09c068..b919c8c 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -164,19 +164,17 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case time.Time:
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + p.printCallChainStatement(val)
+		return val.prefix() + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
 	case MethodStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
+		return val.prefix() + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
 	case VarStatement:
-		return val.Name
+		return val.prefix() + val.Name
 	case ItemStatement:
-		return p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
+		return val.prefix() + p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
 	case TernaryStatement:
-		return fmt.Sprintf("?(%s, %s, %s)", p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, 0), p.printExpression(val.ElseBlock, 0))
+		return val.prefix() + fmt.Sprintf("?(%s, %s, %s)", p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, 0), p.printExpression(val.ElseBlock, 0))
 	case NewObjectStatement:
 		return fmt.Sprintf("Новый %s(%s)", val.Constructor, p.printParams(val.Param.Statements))
 	case AssignmentStatement:
@@ -242,7 +240,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok {
+			if param, ok := v.Param.(ExprStatements); ok && param.prefix() == "" {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
@@ -333,8 +331,8 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 
 	switch v := expr.(type) {
 	case ExprStatements:
-		if v.not {
-			builder.WriteString("Не ")
+		if v.prefix() != "" {
+			builder.WriteString(v.prefix())
 			builder.WriteString("(")
 		}
 
@@ -342,7 +340,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.not {
+		if v.prefix() != "" {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
@@ -361,11 +359,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		builder.WriteString(p.printExpression(v.Left, level+1))
+		builder.WriteString(p.printOperand(v.Left, v.Operation, level+1))
 		builder.WriteString(" ")
 		builder.WriteString(v.Operation.String())
 		builder.WriteString(" ")
-		builder.WriteString(p.printExpression(v.Right, level+1))
+		builder.WriteString(p.printOperand(v.Right, v.Operation, level+1))
 
 		if v.unaryMinus || v.not {
 			builder.WriteString(")")
@@ -374,14 +372,6 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		if level > 0 {
 			builder.WriteString(")")
 		}
-	case VarStatement:
-		if v.not {
-			builder.WriteString("Не ")
-		}
-		if v.unaryMinus {
-			builder.WriteString("-")
-		}
-		builder.WriteString(p.printVarStatement(v))
 	default:
 		builder.WriteString(p.printVarStatement(v))
 	}
@@ -389,6 +379,21 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	return builder.String()
 }
 
+// printOperand печатает операнд бинарной операции. НЕ слабее сравнений и арифметики, поэтому такой операнд берется в скобки
+func (p *astPrint) printOperand(operand Statement, operation OperationType, level int) string {
+	text := p.printExpression(operand, level)
+	if operation != OpAnd && operation != OpOr && strings.HasPrefix(text, "Не ") {
+		return "(" + text + ")"
+	}
+
+	return text
+}
+
+// prefix возвращает текст унарных операций
+func (f addStatementField) prefix() string {
+	return IF[string](f.not, "Не ", "") + IF[string](f.unaryMinus, "-", "")
+}
+
 func (p *astPrint) printCallChainStatement(call Statement) string {
 	switch v := call.(type) {
 	case CallChainStatement:
-- 
2.43.0


From 6954f6bfeec787e734de8877be516c7946e8290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 08/29] fix: a parenthesised comparison used as a statement is
 not printed as an assignment

---
 ast/ast_print.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index b919c8c..ad293ad 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -220,7 +220,12 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 		builder.WriteString(";")
 		builder.WriteString(p.newLine(1))
 	case *ExpStatement:
-		builder.WriteString(p.printExpression(v, 0))
+		// сравнение, записанное оператором, нельзя печатать без скобок, иначе оно станет присваиванием
+		builder.WriteString(p.printExpression(v, IF(v.Operation == OpEq && v.prefix() == "", 1, 0)))
+		builder.WriteString(";")
+	case ExprStatements:
+		text := p.printExpression(v, 0)
+		builder.WriteString(IF(v.prefix() == "", "("+text+")", text))
 		builder.WriteString(";")
 	case *LoopStatement:
 		builder.WriteString(p.printLoopStatement(v, depth))
-- 
2.43.0


From 1da7f446c1db1ca7bfaef3cba3a4ce66dd882ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 09/29] =?UTF-8?q?fix:=20separate=20=D0=9F=D0=BE=D0=BF?=
 =?UTF-8?q?=D1=8B=D1=82=D0=BA=D0=B0=20and=20=D0=98=D1=81=D0=BA=D0=BB=D1=8E?=
 =?UTF-8?q?=D1=87=D0=B5=D0=BD=D0=B8=D0=B5=20from=20the=20next=20word=20in?=
 =?UTF-8?q?=20one-line=20output?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index ad293ad..ce9db02 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -416,7 +416,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	builder := &strings.Builder{}
 
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
-	builder.WriteString("Попытка")
+	builder.WriteString("Попытка ")
 
 	if try.Body != nil {
 		builder.WriteString(p.printBody(try.Body, depth+1))
@@ -425,7 +425,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	}
 
 	builder.WriteString(spaces)
-	builder.WriteString("Исключение")
+	builder.WriteString("Исключение ")
 	if try.Catch != nil {
 		builder.WriteString(p.printBody(try.Catch, depth+1))
 	} else {
-- 
2.43.0


From e6549ee7776a4d7b37b2d943da83944cb4f525af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 10/29] fix: print module and local variables, in a stable
 order

---
 ast/ast_print.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index ce9db02..17cff13 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -48,14 +49,10 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 }
 
 func (p *astPrint) print() string {
-	if len(p.ast.ModuleStatement.Body) == 0 {
-		return ""
-	}
-
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	for _, name := range sortedKeys(p.ast.ModuleStatement.GlobalVariables) {
+		builder.WriteString(p.printGlobalVariables(p.ast.ModuleStatement.GlobalVariables[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
@@ -144,11 +141,27 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 	builder.WriteString(" ")
 	builder.WriteString(export)
 	builder.WriteString(p.newLine(1))
+	if len(pf.ExplicitVariables) > 0 {
+		builder.WriteString(p.newLine(1))
+		builder.WriteString(strings.Repeat(" ", p.conf.Margin*depth))
+		builder.WriteString("Перем " + strings.Join(sortedKeys(pf.ExplicitVariables), ", ") + ";")
+	}
 	builder.WriteString(p.printBody(pf.Body, depth))
 
 	return
 }
 
+// sortedKeys возвращает имена переменных в постоянном порядке
+func sortedKeys[T any](variables map[string]T) []string {
+	names := make([]string, 0, len(variables))
+	for name := range variables {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+	return names
+}
+
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
 	case float64:
-- 
2.43.0


From 085a1f94c3722282d4ae677d57eded347304e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 11/29] fix: PrintStatement prints procedures and functions

---
 ast/ast_print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 17cff13..24a62e3 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -228,6 +228,8 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	builder.WriteString(spaces)
 
 	switch v := item.(type) {
+	case *FunctionOrProcedure:
+		builder.WriteString(p.printFunctionOrProcedure(v))
 	case *IfStatement:
 		builder.WriteString(p.printIfStatement(v, depth))
 		builder.WriteString(";")
-- 
2.43.0


From dd7f127434987d5c8354af46d163127be88b4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 12/29] fix: Walk does not attribute module statements to the
 preceding function

---
 ast/ast_struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index caf7b2d..5590f0e 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -377,7 +377,8 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, v.Body, callBack)
 		case *FunctionOrProcedure:
 			walkHelper(v, v, v.Body, callBack)
-			parent = v
+			callBack(v, &parentStm, &statements[i])
+			continue
 		case MethodStatement:
 			walkHelper(parent, v, v.Param.Statements, callBack)
 		//case CallChainStatement:
-- 
2.43.0


From 04c4c1edfd54e7d58f8444c765c4565eb497fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 13/29] fix: report a syntax error at the start of the
 offending token

---
 ast/ast.go    |  4 ++--
 ast/tokens.go | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..dad68fd 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -73,8 +73,8 @@ func (ast *AstNode) SrsCode() string {
 }
 
 func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.GetPosition()
-	pos.Column -= len([]rune(ast.currentToken.literal)) + 1
+	pos := ast.currentToken.positionAt(ast.currentToken.start)
+	pos.Column--
 
 	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
 }
diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..3f6dc8a 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -27,6 +27,7 @@ type Token struct {
 	literal  string
 	position Position
 	offset   int
+	start    int // начало токена
 	prevDot  bool
 }
 
@@ -124,6 +125,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipSpace()
 	t.skipComment()
 	t.skipRegions()
+	t.start = t.offset
 
 	if t.prevDot {
 		defer func() { t.prevDot = false }()
@@ -368,13 +370,17 @@ func (t *Token) currentLet() rune {
 }
 
 func (t *Token) GetPosition() Position {
+	return t.positionAt(t.offset)
+}
+
+func (t *Token) positionAt(offset int) Position {
 	srsCode := t.ast.SrsCode()
-	eol := strings.LastIndex(srsCode[:t.offset], "\n") + 1
+	eol := strings.LastIndex(srsCode[:offset], "\n") + 1
 	lineBegin := IF[int](eol < 0, 0, eol)
 
 	return Position{
-		Line:   strings.Count(srsCode[:t.offset], "\n") + 1,
-		Column: len([]rune(srsCode[lineBegin:t.offset])) + 1,
+		Line:   strings.Count(srsCode[:offset], "\n") + 1,
+		Column: len([]rune(srsCode[lineBegin:offset])) + 1,
 	}
 }
 
-- 
2.43.0


From 5e5860268f8bea404b1cf02459970fad8baf9a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 14/29] fix: do not write to standard output while parsing

---
 ast/tokens.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 3f6dc8a..9f4c849 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -361,11 +361,6 @@ func (t *Token) currentLet() rune {
 	}
 
 	char, _ := utf8.DecodeRuneInString(srsCode[t.offset:])
-	if char == utf8.RuneError {
-		fmt.Println(fmt.Errorf("error decoding the character"))
-		return char
-	}
-
 	return char
 }
 
-- 
2.43.0


From 273b766874ad5134e44005f2df7d1d49c9a2928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 15/29] fix: detect duplicate variables regardless of letter
 case

---
 ast/ast.go        | 14 +++++++++++++-
 ast/ast_struct.go |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index dad68fd..b66836f 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -148,7 +148,7 @@ func createFunctionOrProcedure(Type StatementType, directive Statement, name str
 
 func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token) (map[string]VarStatement, error) {
 	for _, v := range newVariables {
-		if _, ok := existingVariables[v.literal]; ok {
+		if hasName(existingVariables, v.literal) {
 			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)
 		} else {
 			existingVariables[v.literal] = VarStatement{Name: v.literal}
@@ -157,6 +157,18 @@ func appendVarStatements(existingVariables map[string]VarStatement, newVariables
 	return existingVariables, nil
 }
 
+// hasName проверяет, занято ли имя. Имена в 1С не зависят от регистра
+func hasName[T any](variables map[string]T, name string) bool {
+	lowName := fastToLower(name)
+	for existing := range variables {
+		if fastToLower(existing) == lowName {
+			return true
+		}
+	}
+
+	return false
+}
+
 func unaryMinus(iv interface{}) interface{} {
 	switch v := iv.(type) {
 	case int:
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 5590f0e..e42cc4b 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -332,7 +332,7 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 			m.GlobalVariables = map[string]GlobalVariables{}
 		}
 
-		if _, ok := m.GlobalVariables[v.Var.Name]; ok {
+		if hasName(m.GlobalVariables, v.Var.Name) {
 			yylex.Error(fmt.Sprintf("%v: with the specified name %q", errVariableAlreadyDefined, v.Var.Name))
 		} else {
 			m.GlobalVariables[v.Var.Name] = v
-- 
2.43.0


From 8374e85602b85fd20f9b664079cf430502856f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 16/29] fix: FastToLower lower-cases Latin letters and stays
 within malformed or zero-containing text

---
 ast/fast_tolower/gowrap.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..2ee6f63 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -7,27 +7,29 @@ package fast_tolower
 #include <stdint.h>
 #include <stdio.h> // for printf
 
-void fastToLower(char* str) {
-     for (int i = 0; str[i] != '\0';) {
+void fastToLower(char* str, int len) {
+     for (int i = 0; i < len;) {
         unsigned char byte = str[i];
 		int currentChar = 0;
 
         if (byte <= 0x7F) {
             currentChar = byte; // Один байт (ASCII)
             i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+        } else if (byte >= 0xC0 && byte <= 0xDF && i + 1 < len) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
+        } else if (byte >= 0xE0 && byte <= 0xEF && i + 2 < len) {
             currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
             i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
+        } else if (byte >= 0xF0 && byte <= 0xF7 && i + 3 < len) {
             currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
             i += 4;
+        } else {
+            i++; // не начало целого символа, байт остается как есть
         }
 
 		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
+			str[i-1] = tolower(currentChar);
 		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
@@ -48,8 +50,8 @@ import "unsafe"
 func FastToLower(str string) string {
 	cs := C.CString(str)
 
-	C.fastToLower(cs)
-	result := C.GoString(cs)
+	C.fastToLower(cs, C.int(len(str)))
+	result := C.GoStringN(cs, C.int(len(str)))
 	C.free(unsafe.Pointer(cs))
 
 	return result // *(*string)(unsafe.Pointer(&runes))
-- 
2.43.0


From 5d1414be52b057432e9f81836a365c7b6ac6133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 17/29] =?UTF-8?q?fix:=20JSON=20carries=20unary=20minus=20a?=
 =?UTF-8?q?nd=20=D0=9D=D0=95?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go  | 10 +++++-----
 ast/ast_struct.go | 34 +++++++++++++++++-----------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 24a62e3..1b8d438 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -368,14 +368,14 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		if v.not {
+		if v.IsNot {
 			builder.WriteString("Не ")
 		}
-		if v.unaryMinus {
+		if v.IsUnaryMinus {
 			builder.WriteString("-")
 		}
 
-		if v.unaryMinus || v.not {
+		if v.IsUnaryMinus || v.IsNot {
 			builder.WriteString("(")
 		}
 
@@ -385,7 +385,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		builder.WriteString(" ")
 		builder.WriteString(p.printOperand(v.Right, v.Operation, level+1))
 
-		if v.unaryMinus || v.not {
+		if v.IsUnaryMinus || v.IsNot {
 			builder.WriteString(")")
 		}
 
@@ -411,7 +411,7 @@ func (p *astPrint) printOperand(operand Statement, operation OperationType, leve
 
 // prefix возвращает текст унарных операций
 func (f addStatementField) prefix() string {
-	return IF[string](f.not, "Не ", "") + IF[string](f.unaryMinus, "-", "")
+	return IF[string](f.IsNot, "Не ", "") + IF[string](f.IsUnaryMinus, "-", "")
 }
 
 func (p *astPrint) printCallChainStatement(call Statement) string {
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index e42cc4b..d299daa 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -88,9 +88,9 @@ type ParamStatement struct {
 }
 
 type addStatementField struct {
-	unaryMinus bool
-	unaryPlus  bool
-	not        bool
+	IsUnaryMinus bool `json:"UnaryMinus,omitempty"`
+	IsNot        bool `json:"Not,omitempty"`
+	unaryPlus    bool
 }
 
 type ExpStatement struct {
@@ -196,37 +196,37 @@ func (p *ParamStatement) DefaultValue(value Statement) *ParamStatement {
 }
 
 func (e *ExpStatement) UnaryMinus() interface{} {
-	e.unaryMinus = !e.unaryMinus
+	e.IsUnaryMinus = !e.IsUnaryMinus
 	return e
 }
 
 func (e *ExpStatement) Not() interface{} {
-	e.not = !e.not
+	e.IsNot = !e.IsNot
 	return e
 }
 
 func (e ExprStatements) Not() interface{} {
-	e.not = !e.not
+	e.IsNot = !e.IsNot
 	return e
 }
 
 func (e VarStatement) UnaryMinus() interface{} {
-	e.unaryMinus = !e.unaryMinus
+	e.IsUnaryMinus = !e.IsUnaryMinus
 	return e
 }
 
 func (e VarStatement) Not() interface{} {
-	e.not = !e.not
+	e.IsNot = !e.IsNot
 	return e
 }
 
 func (e CallChainStatement) UnaryMinus() interface{} {
-	e.unaryMinus = !e.unaryMinus
+	e.IsUnaryMinus = !e.IsUnaryMinus
 	return e
 }
 
 func (e CallChainStatement) Not() interface{} {
-	e.not = !e.not
+	e.IsNot = !e.IsNot
 	return e
 }
 
@@ -237,37 +237,37 @@ func (e CallChainStatement) IsMethod() bool {
 }
 
 func (e ExprStatements) UnaryMinus() interface{} {
-	e.unaryMinus = !e.unaryMinus
+	e.IsUnaryMinus = !e.IsUnaryMinus
 	return e
 }
 
 func (n MethodStatement) UnaryMinus() interface{} {
-	n.unaryMinus = !n.unaryMinus
+	n.IsUnaryMinus = !n.IsUnaryMinus
 	return n
 }
 
 func (e ItemStatement) UnaryMinus() interface{} {
-	e.unaryMinus = !e.unaryMinus
+	e.IsUnaryMinus = !e.IsUnaryMinus
 	return e
 }
 
 func (e ItemStatement) Not() interface{} {
-	e.not = !e.not
+	e.IsNot = !e.IsNot
 	return e
 }
 
 func (e TernaryStatement) UnaryMinus() interface{} {
-	e.unaryMinus = !e.unaryMinus
+	e.IsUnaryMinus = !e.IsUnaryMinus
 	return e
 }
 
 func (e TernaryStatement) Not() interface{} {
-	e.not = !e.not
+	e.IsNot = !e.IsNot
 	return e
 }
 
 func (n MethodStatement) Not() interface{} {
-	n.not = !n.not
+	n.IsNot = !n.IsNot
 	return n
 }
 
-- 
2.43.0


From 8a78e58b121ed4984d8d444adb39b0bd5e85f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 18/29] =?UTF-8?q?fix:=20printing=20of=20=D0=9D=D0=95=20and?=
 =?UTF-8?q?=20minus=20over=20parentheses=20is=20stable=20under=20re-parsin?=
 =?UTF-8?q?g?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 1b8d438..2f53949 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -357,7 +357,16 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		}
 
 		for _, s := range v.Statements {
-			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
+			next := IF(level == 0, 0, level+1)
+			if _, ok := s.(*ExpStatement); ok && v.prefix() != "" {
+				next = 0 // скобки уже есть
+			}
+
+			text := p.printExpression(s, next)
+			if inner, ok := s.(ExprStatements); ok && level > 0 && v.prefix() == "" && inner.prefix() != "" {
+				text = "(" + text + ")"
+			}
+			builder.WriteString(text)
 		}
 
 		if v.prefix() != "" {
-- 
2.43.0


From a4009164bb3080b6dbabae4eec989b0a1376362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 19/29] hook: a build with the tag verif can stop a parser
 before every token

---
 ast/ast.go       |  1 +
 ast/verif_off.go |  5 +++++
 ast/verif_on.go  | 12 ++++++++++++
 3 files changed, 18 insertions(+)
 create mode 100644 ast/verif_off.go
 create mode 100644 ast/verif_on.go

diff --git a/ast/ast.go b/ast/ast.go
index b66836f..ab8450d 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -51,6 +51,7 @@ func (ast *AstNode) JSON() ([]byte, error) {
 }
 
 func (ast *AstNode) Lex(lval *yySymType) int {
+	ast.verifToken()
 	if len(ast.code) == 0 {
 		return EOF
 	}
diff --git a/ast/verif_off.go b/ast/verif_off.go
new file mode 100644
index 0000000..42f67be
--- /dev/null
+++ b/ast/verif_off.go
@@ -0,0 +1,5 @@
+//go:build !verif
+
+package ast
+
+func (ast *AstNode) verifToken() {}
diff --git a/ast/verif_on.go b/ast/verif_on.go
new file mode 100644
index 0000000..7436142
--- /dev/null
+++ b/ast/verif_on.go
@@ -0,0 +1,12 @@
+//go:build verif
+
+package ast
+
+// VerifToken is called before every token a parser reads (builds with the tag verif only).
+var VerifToken func(*AstNode)
+
+func (ast *AstNode) verifToken() {
+	if VerifToken != nil {
+		VerifToken(ast)
+	}
+}
-- 
2.43.0


From 08eae953a1fa88dd631dfbb177484d5eb6f8e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 20/29] fix: a date literal swallowed a quote behind it

'20200101' "x' was read as one date literal: doubled quotes and joined
literals are rules of string literals only.
---
 ast/tokens.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 9f4c849..1e151ec 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -279,7 +279,7 @@ eos:
 			return "", fmt.Errorf("unexpected EOF")
 		case cl == end:
 			// пропускаем двойные "
-			if t.nextLet() == '"' {
+			if end == '"' && t.nextLet() == '"' {
 				t.nextPos()
 				ret = append(ret, '"', '"')
 				continue
@@ -290,7 +290,7 @@ eos:
 			// для случаев (в 1с такое допускается, считается одна строка)
 			// d = "ввава"
 			// "fffff"
-			if t.currentLet() == '"' {
+			if end == '"' && t.currentLet() == '"' {
 				continue
 			}
 
-- 
2.43.0


From b558da355467e7f970b40c7452cd398c2ef177e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 21/29] fix: a colon at the beginning of a block was accepted
 as a separator

---
 ast/grammar.y |   8 ++-
 ast/y.go      | 194 ++++++++++++++++++++++++++------------------------
 2 files changed, 105 insertions(+), 97 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 1066057..9f5ad07 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -149,8 +149,12 @@ opt_body: { $$ = nil }
 
 body: stmt { $$ = Statements{$1}}
     | opt_body separator opt_stmt { 
-        if $2.literal == ":" && len($1) > 0 {
-            if _, ok := $1[len($1)-1].(*GoToLabelStatement); !ok {
+        if $2.literal == ":" {
+            label := false
+            if len($1) > 0 {
+                _, label = $1[len($1)-1].(*GoToLabelStatement)
+            }
+            if !label {
                 yylex.Error("semicolon (;) is expected")
             }
         }
diff --git a/ast/y.go b/ast/y.go
index 06fbaee..5c80783 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:380
+//line .\grammar.y:384
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -835,8 +835,12 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:151
 		{
-			if yyDollar[2].token.literal == ":" && len(yyDollar[1].opt_body) > 0 {
-				if _, ok := yyDollar[1].opt_body[len(yyDollar[1].opt_body)-1].(*GoToLabelStatement); !ok {
+			if yyDollar[2].token.literal == ":" {
+				label := false
+				if len(yyDollar[1].opt_body) > 0 {
+					_, label = yyDollar[1].opt_body[len(yyDollar[1].opt_body)-1].(*GoToLabelStatement)
+				}
+				if !label {
 					yylex.Error("semicolon (;) is expected")
 				}
 			}
@@ -848,43 +852,43 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:164
+//line .\grammar.y:168
 		{
 			yyVAL.stmt = nil
 		}
 	case 21:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:165
+//line .\grammar.y:169
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:172
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 23:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:172
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:172
+//line .\grammar.y:176
 		{
 			yyVAL.opt_explicit_variables = map[string]VarStatement{}
 		}
 	case 25:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:173
+//line .\grammar.y:177
 		{
 			yyVAL.opt_explicit_variables = yyDollar[1].explicit_variables
 		}
 	case 26:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:176
+//line .\grammar.y:180
 		{
 			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -894,7 +898,7 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:183
+//line .\grammar.y:187
 		{
 			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -904,7 +908,7 @@ yydefault:
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:194
+//line .\grammar.y:198
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -915,13 +919,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:204
+//line .\grammar.y:208
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:205
+//line .\grammar.y:209
 		{
 			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
@@ -930,19 +934,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:213
+//line .\grammar.y:217
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:214
+//line .\grammar.y:218
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:217
+//line .\grammar.y:221
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -952,13 +956,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:230
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:230
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -969,13 +973,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:238
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:238
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -986,13 +990,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:246
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:246
 		{
 			yyVAL.stmt_loop = &LoopStatement{WhileExpr: yyDollar[2].stmt,
 				Body: yyDollar[5].opt_body,
@@ -1001,31 +1005,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:251
+//line .\grammar.y:255
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:252
+//line .\grammar.y:256
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:253
+//line .\grammar.y:257
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:258
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:258
+//line .\grammar.y:262
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1035,240 +1039,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:265
+//line .\grammar.y:269
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:270
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:271
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:272
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:275
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:276
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:277
+//line .\grammar.y:281
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:282
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:284
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:290
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:291
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:295
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:296
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:299
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:317
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:319
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:320
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:321
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:322
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:323
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:324
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1278,169 +1282,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:333
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:333
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:331
+//line .\grammar.y:335
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:336
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:335
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:340
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:341
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:342
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:343
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:344
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:345
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:346
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:347
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:347
+//line .\grammar.y:351
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:352
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:353
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:352
+//line .\grammar.y:356
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:353
+//line .\grammar.y:357
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:358
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:362
+//line .\grammar.y:366
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:363
+//line .\grammar.y:367
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:368
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:369
+//line .\grammar.y:373
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:371
+//line .\grammar.y:375
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:376
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:375
+//line .\grammar.y:379
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:380
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:381
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 2dece875eefdc52a9305e4eae0c7aaec9ac58667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 22/29] fix: labels and jumps were accepted inside expressions
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'а = ~М + 1;' and 'ф(Перейти ~М);' parsed; a label or a jump is a statement.
---
 ast/grammar.y |   4 +-
 ast/y.go      | 397 +++++++++++++++++++++++++-------------------------
 2 files changed, 201 insertions(+), 200 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 9f5ad07..8012976 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -267,6 +267,8 @@ stmt : through_dot EQUAL expr {
        	    $$ = AssignmentStatement{ Var: v, Expr: ExprStatements{ Statements: Statements{$3}} }
        	}
     | expr %prec LOW_PREC { $$ = $1 }
+    | goToLabel { $$ = $1 }
+    | GoTo goToLabel { $$ = GoToStatement{ Label: $2 } }
     | stmt_if { $$ = $1 }
     | stmt_loop {$$ = $1 }
     | stmt_tryCatch { $$ = $1 }
@@ -319,7 +321,6 @@ expr : simple_expr { $$ = $1 }
     | expr GE expr { $$ = &ExpStatement{Operation: OpGe, Left: $1, Right: $3 } }
     | Not expr { $$ = not($2) }
     | new_object { $$ = $1 }
-    | GoTo goToLabel { $$ = GoToStatement{ Label: $2 } }
     | ternary { $$ =  $1  } /* тернарный оператор */
     | through_dot {
 	    if tok, ok := $1.(Token); ok {
@@ -344,7 +345,6 @@ simple_expr: String { $$ = $1.value  }
             | False { $$ =  $1.value  }
             | Date { $$ =  $1.value  }
             | Undefind { $$ = UndefinedStatement{} }
-            | goToLabel { $$ = $1}
 ;
 
 // опиасываются правила по которым можно объявлять параметры в функции или процедуре
diff --git a/ast/y.go b/ast/y.go
index 5c80783..6aa027d 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,99 +182,100 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 561
+const yyLast = 572
 
 var yyAct = [...]uint8{
-	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
-	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
-	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
-	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 95, 7,
-	55, 86, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 140, 116, 116, 98, 177, 131, 100, 101,
-	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 44, 94, 113, 18, 41, 33, 32,
-	58, 59, 60, 41, 90, 4, 30, 44, 70, 170,
-	127, 36, 37, 39, 31, 38, 70, 130, 126, 165,
-	146, 35, 34, 52, 51, 153, 129, 42, 7, 89,
-	143, 114, 134, 133, 181, 116, 139, 70, 168, 123,
-	204, 135, 85, 83, 147, 151, 132, 7, 7, 31,
-	70, 99, 156, 157, 97, 210, 158, 152, 88, 154,
-	145, 56, 57, 58, 59, 60, 164, 40, 84, 166,
-	162, 169, 52, 51, 176, 198, 171, 140, 176, 7,
-	180, 52, 51, 7, 182, 51, 178, 163, 186, 159,
-	201, 77, 52, 51, 7, 7, 52, 51, 189, 192,
-	193, 187, 191, 188, 125, 190, 149, 7, 174, 200,
-	194, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 124, 139, 209, 118, 26, 211, 51, 116, 52,
-	51, 13, 21, 137, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 173, 6, 52,
-	51, 54, 46, 36, 37, 39, 207, 38, 23, 31,
-	47, 2, 30, 35, 34, 136, 25, 172, 184, 121,
-	20, 26, 42, 195, 3, 1, 16, 13, 21, 50,
-	27, 44, 12, 28, 48, 11, 33, 32, 41, 197,
-	150, 15, 14, 87, 29, 96, 30, 167, 9, 36,
-	37, 39, 17, 38, 23, 31, 79, 10, 0, 35,
-	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
-	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
-	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 0, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
-	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
+	72, 7, 122, 115, 7, 161, 196, 49, 24, 76,
+	138, 148, 160, 21, 5, 25, 53, 55, 45, 75,
+	66, 63, 67, 68, 8, 65, 70, 73, 74, 185,
+	142, 7, 141, 128, 61, 62, 56, 57, 58, 59,
+	60, 71, 71, 55, 116, 82, 116, 71, 77, 7,
+	93, 32, 78, 80, 81, 66, 63, 67, 68, 64,
+	65, 91, 92, 95, 116, 116, 116, 116, 86, 61,
+	62, 56, 57, 58, 59, 60, 20, 42, 98, 199,
+	4, 100, 101, 102, 103, 104, 105, 106, 107, 108,
+	109, 110, 111, 112, 33, 140, 58, 59, 60, 113,
+	42, 179, 90, 175, 94, 153, 126, 43, 177, 52,
+	51, 71, 116, 127, 129, 26, 85, 83, 7, 71,
+	130, 165, 146, 143, 114, 132, 139, 89, 32, 97,
+	162, 99, 133, 170, 147, 151, 134, 7, 7, 181,
+	71, 210, 84, 152, 135, 168, 158, 163, 145, 204,
+	154, 156, 157, 71, 140, 164, 88, 56, 57, 58,
+	59, 60, 171, 198, 176, 52, 51, 123, 176, 7,
+	180, 33, 166, 7, 169, 52, 51, 52, 51, 51,
+	52, 51, 188, 182, 7, 7, 187, 186, 178, 9,
+	190, 189, 174, 201, 159, 194, 125, 7, 192, 193,
+	69, 205, 202, 7, 200, 191, 121, 208, 124, 139,
+	118, 203, 139, 209, 44, 32, 211, 206, 137, 27,
+	52, 51, 52, 51, 28, 51, 116, 52, 51, 54,
+	15, 23, 149, 29, 26, 14, 30, 136, 173, 35,
+	34, 42, 52, 51, 17, 16, 6, 47, 2, 207,
+	46, 172, 38, 39, 41, 184, 40, 10, 33, 195,
+	3, 32, 37, 36, 1, 27, 18, 50, 48, 22,
+	28, 43, 13, 197, 150, 87, 15, 23, 31, 29,
+	26, 14, 30, 96, 167, 35, 34, 42, 11, 19,
+	17, 16, 12, 0, 0, 0, 0, 0, 38, 39,
+	41, 0, 40, 10, 33, 0, 0, 0, 37, 36,
+	0, 0, 0, 0, 0, 22, 0, 43, 66, 63,
+	67, 68, 64, 65, 0, 0, 0, 0, 0, 0,
+	32, 0, 61, 62, 56, 57, 58, 59, 60, 0,
+	79, 0, 0, 0, 0, 131, 23, 0, 0, 0,
+	32, 0, 0, 0, 35, 34, 42, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 23, 38, 39, 41,
+	0, 40, 0, 33, 35, 34, 42, 37, 36, 0,
+	0, 0, 0, 0, 22, 0, 43, 38, 39, 41,
+	0, 40, 0, 33, 0, 0, 0, 37, 36, 116,
+	66, 63, 67, 68, 22, 0, 43, 66, 63, 67,
+	68, 64, 65, 183, 61, 62, 56, 57, 58, 59,
+	60, 61, 62, 56, 57, 58, 59, 60, 0, 0,
+	0, 144, 66, 63, 67, 68, 64, 65, 0, 66,
+	63, 67, 68, 64, 65, 155, 61, 62, 56, 57,
+	58, 59, 60, 61, 62, 56, 57, 58, 59, 60,
+	0, 0, 0, 66, 63, 67, 68, 64, 65, 120,
+	0, 0, 0, 0, 0, 119, 0, 61, 62, 56,
+	57, 58, 59, 60, 0, 0, 0, 66, 63, 67,
+	68, 64, 65, 117, 66, 63, 67, 68, 64, 65,
+	0, 61, 62, 56, 57, 58, 59, 60, 61, 62,
+	56, 57, 58, 59, 60, 0, 0, 0, 0, 66,
+	63, 67, 68, 64, 65, 0, 66, 63, 67, 68,
 	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
-	61, 62, 56, 57, 58, 59, 60, 0, 0, 0,
-	199, 66, 63, 67, 68, 64, 65, 183, 116, 0,
-	0, 0, 0, 0, 0, 61, 62, 56, 57, 58,
-	59, 60, 0, 0, 0, 144, 0, 0, 0, 0,
-	0, 0, 0, 66, 63, 67, 68, 64, 65, 0,
-	0, 66, 63, 67, 68, 64, 65, 61, 62, 56,
-	57, 58, 59, 60, 155, 61, 62, 56, 57, 58,
-	59, 60, 120, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 66, 63, 67, 68, 64, 65, 117, 0,
-	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
-	58, 59, 60, 119, 61, 62, 56, 57, 58, 59,
-	60, 0, 0, 0, 66, 63, 67, 68, 64, 65,
-	0, 0, 66, 63, 67, 68, 64, 65, 61, 62,
-	56, 57, 58, 59, 60, 0, 61, 62, 56, 57,
-	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
-	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
-	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60,
+	61, 62, 56, 57, 58, 59, 60, 35, 34, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	38, 39, 41, 0, 40, 0, 0, 0, 0, 0,
+	37, 36,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 224, -1000, -17, 494, -1000,
-	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 70, -1000, 311, 278, 311, 244, 123,
-	-11, 86, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -14, -1000, -1000, 224, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 88, -1000, 311, 311, 311, 311,
-	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 58, -1000, 501, -1000, 465, 206,
-	473, 441, 229, 121, 203, 186, 311, -1000, 311, -1000,
-	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	33, 33, -1000, -1000, -1000, 96, 96, 96, 330, 501,
-	96, 96, 96, 1, -1000, 311, -1000, 244, 103, 311,
-	-1000, -1000, 119, -1000, -34, -40, 57, 362, 311, 47,
-	402, -1000, -1000, 182, 53, 433, 244, 244, 170, 171,
-	-1000, 152, 152, -1000, -1000, 46, -1000, 311, 113, 311,
-	78, -50, -1000, 59, -1000, -1000, 215, 167, -1000, -1000,
-	19, 26, -1000, 168, 18, -1000, 402, 108, 244, 394,
-	-1000, -44, 244, -1000, -1000, 14, 152, 56, -1000, 14,
-	311, -1000, 224, 244, 244, -1000, 178, -1000, 26, -1000,
-	155, 337, 182, 158, -1000, 155, 244, 120, 121, -1000,
-	-1000, -1000, 244, 235, 121, 212, 109, -1000, 212, -1000,
+	207, -1000, -1000, 207, -1000, 223, -1000, -24, 487, -1000,
+	88, -1000, -1000, -1000, -1000, -1000, 342, 342, -1000, -1000,
+	-37, -1000, 342, 342, -1000, -1000, -1000, 342, 322, 342,
+	253, 107, 6, 94, -1000, -1000, 342, 342, -1000, -1000,
+	-1000, -1000, 42, 1, -1000, 223, -1000, -1000, 253, -1000,
+	-1000, -1000, -1000, 342, 120, -1000, 342, 342, 342, 342,
+	342, 342, 342, 342, 342, 342, 342, 342, 342, -1000,
+	-1000, 487, -50, -1000, 342, 61, -1000, 361, 480, 202,
+	455, 448, 176, 159, 200, 188, 342, -1000, 342, -1000,
+	-1000, -1000, -1000, -29, 342, 342, -1000, -1000, 487, -37,
+	39, 39, -1000, -1000, -1000, 102, 102, 102, -19, 361,
+	102, 102, 102, 279, -1000, 342, -1000, 253, 117, 342,
+	-1000, -1000, 106, -1000, -30, -32, 60, 368, 342, 59,
+	393, -1000, -1000, 218, 43, 424, 253, 253, 174, 186,
+	-1000, 122, 122, -1000, -1000, 58, -1000, 342, 130, 342,
+	112, -50, -1000, 66, -1000, -1000, 216, 161, -1000, -1000,
+	40, 68, -1000, 180, 38, -1000, 393, 123, 253, 400,
+	-1000, -34, 253, -1000, -1000, 47, 122, 515, -1000, 47,
+	342, -1000, 223, 253, 253, -1000, 173, -1000, 68, -1000,
+	153, 16, 218, 171, -1000, 153, 253, 139, 159, -1000,
+	-1000, -1000, 253, 238, 159, 220, 105, -1000, 220, -1000,
 	-1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 250, 5, 95, 297, 292, 288, 6, 287, 285,
-	21, 11, 15, 284, 10, 13, 16, 20, 283, 0,
-	280, 12, 14, 8, 279, 2, 275, 86, 157, 274,
-	7, 269, 266, 3, 265, 264, 238, 263, 258, 257,
-	255, 241, 223,
+	0, 247, 14, 80, 292, 289, 288, 11, 284, 283,
+	19, 24, 10, 278, 13, 12, 5, 9, 275, 0,
+	274, 8, 15, 6, 273, 2, 272, 76, 189, 268,
+	7, 267, 266, 3, 264, 260, 246, 259, 255, 251,
+	237, 229, 218,
 }
 
 var yyR1 = [...]int8{
@@ -283,10 +284,10 @@ var yyR1 = [...]int8{
 	9, 9, 29, 29, 23, 23, 24, 24, 6, 7,
 	7, 8, 8, 22, 38, 4, 39, 4, 40, 4,
 	20, 20, 20, 20, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 19, 19, 27, 27, 27, 27, 27,
-	18, 18, 42, 26, 11, 11, 11, 11, 11, 11,
+	3, 3, 3, 3, 3, 19, 19, 27, 27, 27,
+	27, 27, 18, 18, 42, 26, 11, 11, 11, 11,
 	11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
-	11, 11, 11, 11, 17, 17, 10, 10, 14, 14,
+	11, 11, 11, 11, 11, 17, 17, 10, 10, 14,
 	14, 14, 14, 14, 14, 14, 14, 16, 16, 16,
 	15, 15, 15, 21, 21, 21, 28, 25, 25, 30,
 	31, 33, 41,
@@ -297,25 +298,25 @@ var yyR2 = [...]int8{
 	0, 1, 5, 0, 11, 10, 0, 1, 1, 3,
 	0, 1, 1, 1, 0, 1, 3, 4, 7, 0,
 	5, 0, 2, 8, 0, 9, 0, 8, 0, 6,
-	1, 1, 3, 1, 3, 1, 1, 1, 1, 1,
-	1, 2, 2, 1, 3, 1, 4, 4, 2, 4,
-	1, 1, 0, 6, 1, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 3, 2,
-	1, 2, 1, 1, 0, 1, 1, 3, 1, 1,
-	2, 2, 1, 1, 1, 1, 1, 1, 2, 3,
+	1, 1, 3, 1, 3, 1, 1, 2, 1, 1,
+	1, 1, 1, 2, 2, 1, 3, 1, 4, 4,
+	2, 4, 1, 1, 0, 6, 1, 3, 3, 3,
+	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
+	3, 2, 1, 1, 1, 0, 1, 1, 3, 1,
+	1, 2, 2, 1, 1, 1, 1, 1, 2, 3,
 	0, 1, 3, 2, 5, 4, 1, 1, 3, 1,
 	1, 1, 1,
 }
 
 var yyChk = [...]int16{
-	-1000, -34, -1, -35, -3, -2, -36, -19, -11, -6,
-	-4, -26, 28, 23, 38, 37, -32, -5, -27, -14,
-	62, 24, -21, 50, -22, 12, 17, 26, 29, -13,
-	8, 51, 33, 32, 56, 55, 45, 46, 49, 47,
-	-28, 34, 64, 7, 27, -2, -36, -1, -29, -30,
+	-1000, -34, -1, -35, -3, -2, -36, -19, -11, -28,
+	50, -6, -4, -26, 28, 23, 38, 37, -32, -5,
+	-27, -14, 62, 24, -21, -22, 27, 12, 17, 26,
+	29, -13, 8, 51, 33, 32, 56, 55, 45, 46,
+	49, 47, 34, 64, 7, -2, -36, -1, -29, -30,
 	-31, 5, 4, 40, -41, 67, 55, 56, 57, 58,
-	59, 53, 54, 40, 43, 44, 39, 41, 42, -17,
-	-11, -19, -17, 65, -10, -17, -11, -28, -11, 18,
+	59, 53, 54, 40, 43, 44, 39, 41, 42, -28,
+	-17, -11, -19, -17, 65, -10, -17, -11, -11, 18,
 	-11, -11, -2, 10, 35, 9, 62, -18, 62, 33,
 	8, -11, -11, 8, 62, 62, -9, -3, -11, -27,
 	-11, -11, -11, -11, -11, -11, -11, -11, -11, -11,
@@ -333,24 +334,24 @@ var yyChk = [...]int16{
 }
 
 var yyDef = [...]int8{
-	-2, -2, -2, -2, 18, 0, 4, 83, 45, 46,
-	47, 48, 49, 50, 84, 84, 6, 7, 53, 64,
-	84, 0, 80, 0, 82, 0, 0, 0, 16, 0,
-	55, 0, 88, 89, 0, 0, 92, 93, 94, 95,
-	96, 0, 0, 9, 106, 3, 5, 17, 20, 22,
+	-2, -2, -2, -2, 18, 0, 4, 84, 45, 46,
+	0, 48, 49, 50, 51, 52, 85, 85, 6, 7,
+	55, 66, 85, 0, 82, 83, 106, 0, 0, 0,
+	16, 0, 57, 0, 89, 90, 0, 0, 93, 94,
+	95, 96, 0, 0, 9, 3, 5, 17, 20, 22,
 	23, 109, 110, 0, 0, 112, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 51,
-	85, 83, 52, 0, 0, 86, 79, 81, 0, 0,
-	0, 0, 0, 0, 0, 0, 84, 58, 0, 60,
-	61, 90, 91, 103, 84, 0, 19, 21, 44, 54,
-	66, 67, 68, 69, 70, 71, 72, 73, 74, 75,
-	76, 77, 78, 0, 65, 84, 111, 16, 0, 0,
-	38, 62, 10, 107, 0, 0, 0, 0, 84, 0,
-	0, 57, 87, 29, 0, 0, 16, 16, 0, 0,
-	11, 100, 100, 56, 59, 0, 105, 0, 31, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 47,
+	53, 86, 84, 54, 0, 0, 87, 81, 0, 0,
+	0, 0, 0, 0, 0, 0, 85, 60, 0, 62,
+	63, 91, 92, 103, 85, 0, 19, 21, 44, 56,
+	68, 69, 70, 71, 72, 73, 74, 75, 76, 77,
+	78, 79, 80, 0, 67, 85, 111, 16, 0, 0,
+	38, 64, 10, 107, 0, 0, 0, 0, 85, 0,
+	0, 59, 88, 29, 0, 0, 16, 16, 0, 0,
+	11, 100, 100, 58, 61, 0, 105, 0, 31, 0,
 	0, 40, 41, 0, 43, 36, 0, 0, 12, 108,
 	0, 101, 97, 0, 0, 104, 0, 0, 16, 0,
-	34, 0, 16, 39, 63, 10, 0, 0, 98, 10,
+	34, 0, 16, 39, 65, 10, 0, 0, 98, 10,
 	0, 28, 32, 16, 16, 42, 0, 13, 102, 99,
 	24, 0, 29, 0, 37, 24, 16, 25, 0, 33,
 	30, 35, 16, 0, 0, 0, 0, 15, 0, 26,
@@ -1047,222 +1048,222 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:270
 		{
-			yyVAL.stmt = yyDollar[1].stmt_if
+			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 47:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line .\grammar.y:271
 		{
-			yyVAL.stmt = yyDollar[1].stmt_loop
+			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:272
 		{
-			yyVAL.stmt = yyDollar[1].stmt
+			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:273
 		{
-			yyVAL.stmt = ContinueStatement{}
-			checkLoopOperator(yyDollar[1].token, yylex)
+			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:274
+		{
+			yyVAL.stmt = yyDollar[1].stmt
+		}
+	case 51:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:275
+		{
+			yyVAL.stmt = ContinueStatement{}
+			checkLoopOperator(yyDollar[1].token, yylex)
+		}
+	case 52:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:276
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
-	case 51:
+	case 53:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:275
+//line .\grammar.y:277
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
-	case 52:
+	case 54:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:276
+//line .\grammar.y:278
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
-	case 53:
+	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:281
+//line .\grammar.y:283
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
-	case 54:
+	case 56:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:282
+//line .\grammar.y:284
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
-	case 55:
+	case 57:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:290
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
-	case 56:
+	case 58:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:289
+//line .\grammar.y:291
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
-	case 57:
+	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:290
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
-	case 58:
+	case 60:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:293
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
-	case 59:
+	case 61:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:294
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
-	case 60:
+	case 62:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:297
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
-	case 61:
+	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:296
+//line .\grammar.y:298
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
-	case 62:
+	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:299
+//line .\grammar.y:301
 		{
 			setTryFlag(true, yylex)
 		}
-	case 63:
+	case 65:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:299
+//line .\grammar.y:301
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
-	case 64:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:305
-		{
-			yyVAL.stmt = yyDollar[1].stmt
-		}
-	case 65:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
-		{
-			yyVAL.stmt = yyDollar[2].exprs
-		}
 	case 66:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:307
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:308
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:309
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:310
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:311
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:312
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:313
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:314
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:315
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:316
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:317
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:318
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:319
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:320
 		{
-			yyVAL.stmt = not(yyDollar[2].stmt)
+			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 80:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:321
 		{
-			yyVAL.stmt = yyDollar[1].stmt
+			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line .\grammar.y:322
 		{
-			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
+			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1273,6 +1274,12 @@ yydefault:
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:324
+		{
+			yyVAL.stmt = yyDollar[1].stmt
+		}
+	case 84:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:325
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1280,36 +1287,30 @@ yydefault:
 				yyVAL.stmt = yyDollar[1].stmt
 			}
 		}
-	case 84:
+	case 85:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:333
+//line .\grammar.y:334
 		{
 			yyVAL.stmt = nil
 		}
-	case 85:
+	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:333
+//line .\grammar.y:334
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
-	case 86:
+	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:335
+//line .\grammar.y:336
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
-	case 87:
+	case 88:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:337
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
-	case 88:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:339
-		{
-			yyVAL.stmt = yyDollar[1].token.value
-		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:340
@@ -1317,22 +1318,22 @@ yydefault:
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:341
 		{
-			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
+			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line .\grammar.y:342
 		{
-			yyVAL.stmt = yyDollar[2].stmt
+			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 92:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line .\grammar.y:343
 		{
-			yyVAL.stmt = yyDollar[1].token.value
+			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1350,13 +1351,13 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:346
 		{
-			yyVAL.stmt = UndefinedStatement{}
+			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:347
 		{
-			yyVAL.stmt = yyDollar[1].goToLabel
+			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From d7be71bb9052f6613f03ce071eebfcf8dbd7d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 23/29] fix: a parameter list could begin with a comma, and a
 default value could be repeated

---
 ast/grammar.y |  20 +-
 ast/y.go      | 530 +++++++++++++++++++++++++-------------------------
 2 files changed, 284 insertions(+), 266 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 8012976..940b29e 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -17,7 +17,9 @@ package ast
 %type<opt_directive> opt_directive 
 %type<stmt> simple_expr
 %type<declarations_method_params> declarations_method_params
+%type<declarations_method_params> opt_method_params
 %type<declarations_method_param> declarations_method_param
+%type<declarations_method_param> method_param
 %type<stmt> opt_expr
 %type<stmt> execute_param
 %type<stmt> through_dot
@@ -131,12 +133,12 @@ global_variables: opt_directive Var identifiers opt_export semicolon {
 };
 
 
-funcProc: opt_directive Function token_identifier '(' declarations_method_params ')' opt_export { isFunction(true, yylex) } opt_explicit_variables opt_body EndFunction
+funcProc: opt_directive Function token_identifier '(' opt_method_params ')' opt_export { isFunction(true, yylex) } opt_explicit_variables opt_body EndFunction
         {  
             $$ = createFunctionOrProcedure(PFTypeFunction, $1, $3.literal, $5, $7, $9, $10)
             isFunction(false, yylex) 
         }
-        | opt_directive Procedure token_identifier '(' declarations_method_params ')' opt_export opt_explicit_variables opt_body EndProcedure
+        | opt_directive Procedure token_identifier '(' opt_method_params ')' opt_export opt_explicit_variables opt_body EndProcedure
         { 
             $$ = createFunctionOrProcedure(PFTypeProcedure, $1, $3.literal, $5, $7, $8, $9)
         }
@@ -348,13 +350,19 @@ simple_expr: String { $$ = $1.value  }
 ;
 
 // опиасываются правила по которым можно объявлять параметры в функции или процедуре
-declarations_method_param: token_identifier {  $$ = *(&ParamStatement{}).Fill(nil, $1) } // обычный параметр
+declarations_method_param: method_param { $$ = $1 } // обычный параметр
+            | method_param EQUAL simple_expr { $$ = *($1.DefaultValue($3)) } // необязательный параметр
+;
+
+method_param: token_identifier {  $$ = *(&ParamStatement{}).Fill(nil, $1) }
             | ValueParam token_identifier { $$ = *(&ParamStatement{}).Fill(&$1, $2) } // знач
-            | declarations_method_param EQUAL simple_expr { $$ = *($$.DefaultValue($3)) } // необязательный параметр
 ;
 
-declarations_method_params : { $$ = []ParamStatement{} }
-                | declarations_method_param  { $$ = []ParamStatement{$1} }
+opt_method_params: { $$ = []ParamStatement{} }
+                | declarations_method_params { $$ = $1 }
+;
+
+declarations_method_params: declarations_method_param  { $$ = []ParamStatement{$1} }
                 | declarations_method_params comma declarations_method_param { $$ = append($1, $3) }
 ;
 
diff --git a/ast/y.go b/ast/y.go
index 6aa027d..eeddbc4 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -8,7 +8,7 @@ import __yyfmt__ "fmt"
 
 //line .\grammar.y:3
 
-//line .\grammar.y:42
+//line .\grammar.y:44
 type yySymType struct {
 	yys                        int
 	token                      Token
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:384
+//line .\grammar.y:392
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -182,115 +182,113 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 572
+const yyLast = 551
 
 var yyAct = [...]uint8{
-	72, 7, 122, 115, 7, 161, 196, 49, 24, 76,
-	138, 148, 160, 21, 5, 25, 53, 55, 45, 75,
-	66, 63, 67, 68, 8, 65, 70, 73, 74, 185,
-	142, 7, 141, 128, 61, 62, 56, 57, 58, 59,
-	60, 71, 71, 55, 116, 82, 116, 71, 77, 7,
-	93, 32, 78, 80, 81, 66, 63, 67, 68, 64,
-	65, 91, 92, 95, 116, 116, 116, 116, 86, 61,
-	62, 56, 57, 58, 59, 60, 20, 42, 98, 199,
-	4, 100, 101, 102, 103, 104, 105, 106, 107, 108,
-	109, 110, 111, 112, 33, 140, 58, 59, 60, 113,
-	42, 179, 90, 175, 94, 153, 126, 43, 177, 52,
-	51, 71, 116, 127, 129, 26, 85, 83, 7, 71,
-	130, 165, 146, 143, 114, 132, 139, 89, 32, 97,
-	162, 99, 133, 170, 147, 151, 134, 7, 7, 181,
-	71, 210, 84, 152, 135, 168, 158, 163, 145, 204,
-	154, 156, 157, 71, 140, 164, 88, 56, 57, 58,
-	59, 60, 171, 198, 176, 52, 51, 123, 176, 7,
-	180, 33, 166, 7, 169, 52, 51, 52, 51, 51,
-	52, 51, 188, 182, 7, 7, 187, 186, 178, 9,
-	190, 189, 174, 201, 159, 194, 125, 7, 192, 193,
-	69, 205, 202, 7, 200, 191, 121, 208, 124, 139,
-	118, 203, 139, 209, 44, 32, 211, 206, 137, 27,
-	52, 51, 52, 51, 28, 51, 116, 52, 51, 54,
-	15, 23, 149, 29, 26, 14, 30, 136, 173, 35,
-	34, 42, 52, 51, 17, 16, 6, 47, 2, 207,
-	46, 172, 38, 39, 41, 184, 40, 10, 33, 195,
-	3, 32, 37, 36, 1, 27, 18, 50, 48, 22,
-	28, 43, 13, 197, 150, 87, 15, 23, 31, 29,
-	26, 14, 30, 96, 167, 35, 34, 42, 11, 19,
-	17, 16, 12, 0, 0, 0, 0, 0, 38, 39,
-	41, 0, 40, 10, 33, 0, 0, 0, 37, 36,
-	0, 0, 0, 0, 0, 22, 0, 43, 66, 63,
-	67, 68, 64, 65, 0, 0, 0, 0, 0, 0,
-	32, 0, 61, 62, 56, 57, 58, 59, 60, 0,
-	79, 0, 0, 0, 0, 131, 23, 0, 0, 0,
-	32, 0, 0, 0, 35, 34, 42, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 23, 38, 39, 41,
-	0, 40, 0, 33, 35, 34, 42, 37, 36, 0,
-	0, 0, 0, 0, 22, 0, 43, 38, 39, 41,
-	0, 40, 0, 33, 0, 0, 0, 37, 36, 116,
-	66, 63, 67, 68, 22, 0, 43, 66, 63, 67,
-	68, 64, 65, 183, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 0, 0,
-	0, 144, 66, 63, 67, 68, 64, 65, 0, 66,
-	63, 67, 68, 64, 65, 155, 61, 62, 56, 57,
-	58, 59, 60, 61, 62, 56, 57, 58, 59, 60,
-	0, 0, 0, 66, 63, 67, 68, 64, 65, 120,
-	0, 0, 0, 0, 0, 119, 0, 61, 62, 56,
-	57, 58, 59, 60, 0, 0, 0, 66, 63, 67,
-	68, 64, 65, 117, 66, 63, 67, 68, 64, 65,
-	0, 61, 62, 56, 57, 58, 59, 60, 61, 62,
-	56, 57, 58, 59, 60, 0, 0, 0, 0, 66,
-	63, 67, 68, 64, 65, 0, 66, 63, 67, 68,
-	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
-	61, 62, 56, 57, 58, 59, 60, 35, 34, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	38, 39, 41, 0, 40, 0, 0, 0, 0, 0,
-	37, 36,
+	72, 7, 122, 115, 7, 5, 148, 49, 198, 45,
+	21, 138, 24, 160, 55, 162, 25, 76, 74, 75,
+	53, 187, 181, 177, 142, 66, 63, 67, 68, 64,
+	65, 7, 116, 8, 70, 73, 82, 141, 128, 61,
+	62, 56, 57, 58, 59, 60, 116, 55, 116, 7,
+	71, 71, 131, 116, 95, 86, 71, 77, 93, 140,
+	4, 78, 80, 81, 66, 63, 67, 68, 64, 65,
+	91, 92, 56, 57, 58, 59, 60, 20, 61, 62,
+	56, 57, 58, 59, 60, 116, 90, 98, 201, 167,
+	100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
+	110, 111, 112, 146, 179, 143, 126, 32, 113, 97,
+	114, 89, 94, 26, 129, 58, 59, 60, 7, 42,
+	71, 172, 127, 133, 134, 183, 139, 140, 71, 130,
+	52, 51, 99, 132, 147, 151, 170, 7, 7, 206,
+	88, 32, 156, 157, 85, 83, 158, 152, 145, 71,
+	33, 154, 9, 135, 52, 51, 166, 176, 200, 52,
+	51, 164, 71, 69, 149, 178, 173, 42, 52, 51,
+	84, 7, 182, 123, 180, 7, 184, 159, 165, 125,
+	188, 168, 124, 171, 33, 121, 7, 7, 118, 189,
+	191, 194, 195, 192, 190, 153, 116, 43, 51, 7,
+	212, 202, 137, 207, 205, 7, 204, 44, 32, 210,
+	208, 139, 27, 54, 139, 211, 193, 28, 213, 51,
+	116, 52, 51, 15, 23, 136, 29, 26, 14, 30,
+	52, 51, 35, 34, 42, 52, 51, 17, 16, 203,
+	52, 51, 47, 2, 174, 38, 39, 41, 196, 40,
+	10, 33, 186, 175, 32, 37, 36, 6, 27, 52,
+	51, 46, 22, 28, 43, 197, 209, 3, 1, 15,
+	23, 18, 29, 26, 14, 30, 50, 48, 35, 34,
+	42, 13, 199, 17, 16, 150, 87, 163, 32, 161,
+	31, 38, 39, 41, 96, 40, 10, 33, 79, 169,
+	11, 37, 36, 19, 23, 12, 0, 0, 22, 0,
+	43, 0, 35, 34, 42, 0, 0, 0, 0, 0,
+	0, 32, 0, 0, 0, 38, 39, 41, 0, 40,
+	0, 33, 0, 0, 0, 37, 36, 23, 0, 0,
+	0, 0, 22, 0, 43, 35, 34, 42, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 38, 39,
+	41, 0, 40, 0, 33, 0, 0, 0, 37, 36,
+	116, 66, 63, 67, 68, 22, 65, 43, 66, 63,
+	67, 68, 64, 65, 185, 61, 62, 56, 57, 58,
+	59, 60, 61, 62, 56, 57, 58, 59, 60, 0,
+	0, 0, 144, 66, 63, 67, 68, 64, 65, 0,
+	66, 63, 67, 68, 64, 65, 155, 61, 62, 56,
+	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
+	60, 0, 0, 0, 66, 63, 67, 68, 64, 65,
+	120, 0, 0, 0, 0, 0, 119, 0, 61, 62,
+	56, 57, 58, 59, 60, 0, 0, 0, 66, 63,
+	67, 68, 64, 65, 117, 66, 63, 67, 68, 64,
+	65, 0, 61, 62, 56, 57, 58, 59, 60, 61,
+	62, 56, 57, 58, 59, 60, 0, 0, 0, 0,
+	66, 63, 67, 68, 64, 65, 0, 66, 63, 67,
+	68, 64, 65, 0, 61, 62, 56, 57, 58, 59,
+	60, 61, 62, 56, 57, 58, 59, 60, 66, 63,
+	67, 68, 0, 0, 0, 0, 35, 34, 0, 0,
+	0, 0, 61, 62, 56, 57, 58, 59, 60, 38,
+	39, 41, 0, 40, 0, 0, 0, 0, 0, 37,
+	36,
 }
 
 var yyPact = [...]int16{
-	207, -1000, -1000, 207, -1000, 223, -1000, -24, 487, -1000,
-	88, -1000, -1000, -1000, -1000, -1000, 342, 342, -1000, -1000,
-	-37, -1000, 342, 342, -1000, -1000, -1000, 342, 322, 342,
-	253, 107, 6, 94, -1000, -1000, 342, 342, -1000, -1000,
-	-1000, -1000, 42, 1, -1000, 223, -1000, -1000, 253, -1000,
-	-1000, -1000, -1000, 342, 120, -1000, 342, 342, 342, 342,
-	342, 342, 342, 342, 342, 342, 342, 342, 342, -1000,
-	-1000, 487, -50, -1000, 342, 61, -1000, 361, 480, 202,
-	455, 448, 176, 159, 200, 188, 342, -1000, 342, -1000,
-	-1000, -1000, -1000, -29, 342, 342, -1000, -1000, 487, -37,
-	39, 39, -1000, -1000, -1000, 102, 102, 102, -19, 361,
-	102, 102, 102, 279, -1000, 342, -1000, 253, 117, 342,
-	-1000, -1000, 106, -1000, -30, -32, 60, 368, 342, 59,
-	393, -1000, -1000, 218, 43, 424, 253, 253, 174, 186,
-	-1000, 122, 122, -1000, -1000, 58, -1000, 342, 130, 342,
-	112, -50, -1000, 66, -1000, -1000, 216, 161, -1000, -1000,
-	40, 68, -1000, 180, 38, -1000, 393, 123, 253, 400,
-	-1000, -34, 253, -1000, -1000, 47, 122, 515, -1000, 47,
-	342, -1000, 223, 253, 253, -1000, 173, -1000, 68, -1000,
-	153, 16, 218, 171, -1000, 153, 253, 139, 159, -1000,
-	-1000, -1000, 253, 238, 159, 220, 105, -1000, 220, -1000,
-	-1000, -1000,
+	200, -1000, -1000, 200, -1000, 236, -1000, -20, 458, -1000,
+	86, -1000, -1000, -1000, -1000, -1000, 313, 313, -1000, -1000,
+	-47, -1000, 313, 313, -1000, -1000, -1000, 313, 280, 313,
+	246, 135, -7, 78, -1000, -1000, 313, 313, -1000, -1000,
+	-1000, -1000, 50, -8, -1000, 236, -1000, -1000, 246, -1000,
+	-1000, -1000, -1000, 313, 99, -1000, 313, 313, 313, 313,
+	313, 313, 313, 313, 313, 313, 313, 313, 313, -1000,
+	-1000, 458, -53, -1000, 313, 47, -1000, 479, 451, 180,
+	426, 419, 155, 165, 174, 171, 313, -1000, 313, -1000,
+	-1000, -1000, -1000, -24, 313, 313, -1000, -1000, 458, -47,
+	58, 58, -1000, -1000, -1000, 17, 17, 17, 332, 479,
+	17, 17, 17, -14, -1000, 313, -1000, 246, 105, 313,
+	-1000, -1000, 79, -1000, -25, -38, 42, 339, 313, 40,
+	364, -1000, -1000, 150, 133, 395, 246, 246, 193, 169,
+	-1000, 153, 153, -1000, -1000, 26, -1000, 313, 121, 313,
+	100, -53, -1000, 85, -1000, -1000, 231, 126, -1000, -1000,
+	-40, 190, -1000, 64, -1000, 166, -41, -1000, 364, 109,
+	246, 371, -1000, -42, 246, -1000, -1000, 11, 153, 494,
+	-1000, 11, 313, -1000, 236, 246, 246, -1000, 226, -1000,
+	-1000, -1000, 148, 25, 150, 217, -1000, 148, 246, 129,
+	165, -1000, -1000, -1000, 246, 255, 165, 214, 164, -1000,
+	214, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 247, 14, 80, 292, 289, 288, 11, 284, 283,
-	19, 24, 10, 278, 13, 12, 5, 9, 275, 0,
-	274, 8, 15, 6, 273, 2, 272, 76, 189, 268,
-	7, 267, 266, 3, 264, 260, 246, 259, 255, 251,
-	237, 229, 218,
+	0, 242, 5, 60, 305, 303, 300, 6, 299, 294,
+	19, 33, 11, 290, 10, 289, 13, 15, 287, 17,
+	286, 0, 285, 12, 16, 8, 282, 2, 281, 77,
+	152, 277, 7, 276, 271, 3, 268, 267, 257, 265,
+	252, 244, 225, 213, 202,
 }
 
 var yyR1 = [...]int8{
-	0, 34, 34, 34, 35, 35, 36, 36, 13, 13,
-	12, 12, 32, 37, 5, 5, 2, 2, 1, 1,
-	9, 9, 29, 29, 23, 23, 24, 24, 6, 7,
-	7, 8, 8, 22, 38, 4, 39, 4, 40, 4,
-	20, 20, 20, 20, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 3, 19, 19, 27, 27, 27,
-	27, 27, 18, 18, 42, 26, 11, 11, 11, 11,
+	0, 36, 36, 36, 37, 37, 38, 38, 13, 13,
+	12, 12, 34, 39, 5, 5, 2, 2, 1, 1,
+	9, 9, 31, 31, 25, 25, 26, 26, 6, 7,
+	7, 8, 8, 24, 40, 4, 41, 4, 42, 4,
+	22, 22, 22, 22, 3, 3, 3, 3, 3, 3,
+	3, 3, 3, 3, 3, 21, 21, 29, 29, 29,
+	29, 29, 20, 20, 44, 28, 11, 11, 11, 11,
 	11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
-	11, 11, 11, 11, 11, 17, 17, 10, 10, 14,
-	14, 14, 14, 14, 14, 14, 14, 16, 16, 16,
-	15, 15, 15, 21, 21, 21, 28, 25, 25, 30,
-	31, 33, 41,
+	11, 11, 11, 11, 11, 19, 19, 10, 10, 14,
+	14, 14, 14, 14, 14, 14, 14, 17, 17, 18,
+	18, 16, 16, 15, 15, 23, 23, 23, 30, 27,
+	27, 32, 33, 35, 43,
 }
 
 var yyR2 = [...]int8{
@@ -303,59 +301,59 @@ var yyR2 = [...]int8{
 	2, 4, 1, 1, 0, 6, 1, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 2, 1, 1, 1, 0, 1, 1, 3, 1,
-	1, 2, 2, 1, 1, 1, 1, 1, 2, 3,
-	0, 1, 3, 2, 5, 4, 1, 1, 3, 1,
-	1, 1, 1,
+	1, 2, 2, 1, 1, 1, 1, 1, 3, 1,
+	2, 0, 1, 1, 3, 2, 5, 4, 1, 1,
+	3, 1, 1, 1, 1,
 }
 
 var yyChk = [...]int16{
-	-1000, -34, -1, -35, -3, -2, -36, -19, -11, -28,
-	50, -6, -4, -26, 28, 23, 38, 37, -32, -5,
-	-27, -14, 62, 24, -21, -22, 27, 12, 17, 26,
+	-1000, -36, -1, -37, -3, -2, -38, -21, -11, -30,
+	50, -6, -4, -28, 28, 23, 38, 37, -34, -5,
+	-29, -14, 62, 24, -23, -24, 27, 12, 17, 26,
 	29, -13, 8, 51, 33, 32, 56, 55, 45, 46,
-	49, 47, 34, 64, 7, -2, -36, -1, -29, -30,
-	-31, 5, 4, 40, -41, 67, 55, 56, 57, 58,
-	59, 53, 54, 40, 43, 44, 39, 41, 42, -28,
-	-17, -11, -19, -17, 65, -10, -17, -11, -11, 18,
-	-11, -11, -2, 10, 35, 9, 62, -18, 62, 33,
-	8, -11, -11, 8, 62, 62, -9, -3, -11, -27,
+	49, 47, 34, 64, 7, -2, -38, -1, -31, -32,
+	-33, 5, 4, 40, -43, 67, 55, 56, 57, 58,
+	59, 53, 54, 40, 43, 44, 39, 41, 42, -30,
+	-19, -11, -21, -19, 65, -10, -19, -11, -11, 18,
+	-11, -11, -2, 10, 35, 9, 62, -20, 62, 33,
+	8, -11, -11, 8, 62, 62, -9, -3, -11, -29,
 	-11, -11, -11, -11, -11, -11, -11, -11, -11, -11,
-	-11, -11, -11, -11, 63, -33, 6, 13, 8, 20,
-	21, 30, -25, 8, 8, 8, -10, -11, 62, -10,
-	-11, 66, -17, -2, 19, -11, -40, -42, -12, -33,
-	48, 62, 62, 63, 63, -10, 63, -33, -7, 14,
-	-20, -19, -21, 62, -22, 21, -2, -2, -30, 8,
-	-15, -16, 8, 25, -15, 63, -11, -8, 15, -11,
-	21, -21, -39, 22, 31, 63, -33, 40, 8, 63,
-	-33, 16, -2, 13, -38, 63, -2, -12, -16, -14,
-	-12, -11, -2, -2, 22, -37, -23, -24, 10, 63,
-	-7, 22, -23, -2, 10, -25, -2, 11, -25, -30,
-	36, -30,
+	-11, -11, -11, -11, 63, -35, 6, 13, 8, 20,
+	21, 30, -27, 8, 8, 8, -10, -11, 62, -10,
+	-11, 66, -19, -2, 19, -11, -42, -44, -12, -35,
+	48, 62, 62, 63, 63, -10, 63, -35, -7, 14,
+	-22, -21, -23, 62, -24, 21, -2, -2, -32, 8,
+	-16, -15, -17, -18, 8, 25, -16, 63, -11, -8,
+	15, -11, 21, -23, -41, 22, 31, 63, -35, 40,
+	8, 63, -35, 16, -2, 13, -40, 63, -2, -12,
+	-17, -14, -12, -11, -2, -2, 22, -39, -25, -26,
+	10, 63, -7, 22, -25, -2, 10, -27, -2, 11,
+	-27, -32, 36, -32,
 }
 
 var yyDef = [...]int8{
 	-2, -2, -2, -2, 18, 0, 4, 84, 45, 46,
 	0, 48, 49, 50, 51, 52, 85, 85, 6, 7,
-	55, 66, 85, 0, 82, 83, 106, 0, 0, 0,
+	55, 66, 85, 0, 82, 83, 108, 0, 0, 0,
 	16, 0, 57, 0, 89, 90, 0, 0, 93, 94,
 	95, 96, 0, 0, 9, 3, 5, 17, 20, 22,
-	23, 109, 110, 0, 0, 112, 0, 0, 0, 0,
+	23, 111, 112, 0, 0, 114, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 47,
 	53, 86, 84, 54, 0, 0, 87, 81, 0, 0,
 	0, 0, 0, 0, 0, 0, 85, 60, 0, 62,
-	63, 91, 92, 103, 85, 0, 19, 21, 44, 56,
+	63, 91, 92, 105, 85, 0, 19, 21, 44, 56,
 	68, 69, 70, 71, 72, 73, 74, 75, 76, 77,
-	78, 79, 80, 0, 67, 85, 111, 16, 0, 0,
-	38, 64, 10, 107, 0, 0, 0, 0, 85, 0,
+	78, 79, 80, 0, 67, 85, 113, 16, 0, 0,
+	38, 64, 10, 109, 0, 0, 0, 0, 85, 0,
 	0, 59, 88, 29, 0, 0, 16, 16, 0, 0,
-	11, 100, 100, 58, 61, 0, 105, 0, 31, 0,
-	0, 40, 41, 0, 43, 36, 0, 0, 12, 108,
-	0, 101, 97, 0, 0, 104, 0, 0, 16, 0,
-	34, 0, 16, 39, 65, 10, 0, 0, 98, 10,
-	0, 28, 32, 16, 16, 42, 0, 13, 102, 99,
-	24, 0, 29, 0, 37, 24, 16, 25, 0, 33,
-	30, 35, 16, 0, 0, 0, 0, 15, 0, 26,
-	14, 27,
+	11, 101, 101, 58, 61, 0, 107, 0, 31, 0,
+	0, 40, 41, 0, 43, 36, 0, 0, 12, 110,
+	0, 102, 103, 97, 99, 0, 0, 106, 0, 0,
+	16, 0, 34, 0, 16, 39, 65, 10, 0, 0,
+	100, 10, 0, 28, 32, 16, 16, 42, 0, 13,
+	104, 98, 24, 0, 29, 0, 37, 24, 16, 25,
+	0, 33, 30, 35, 16, 0, 0, 0, 0, 15,
+	0, 26, 14, 27,
 }
 
 var yyTok1 = [...]int8{
@@ -722,12 +720,12 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:85
+//line .\grammar.y:87
 		{
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:86
+//line .\grammar.y:88
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].body, yylex)
@@ -735,7 +733,7 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:91
+//line .\grammar.y:93
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[2].opt_body, yylex)
@@ -743,7 +741,7 @@ yydefault:
 		}
 	case 6:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:101
+//line .\grammar.y:103
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].global_variables, yylex)
@@ -751,7 +749,7 @@ yydefault:
 		}
 	case 7:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:106
+//line .\grammar.y:108
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].funcProc, yylex)
@@ -759,31 +757,31 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:113
+//line .\grammar.y:115
 		{
 			yyVAL.opt_directive = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:114
+//line .\grammar.y:116
 		{
 			yyVAL.opt_directive = &yyDollar[1].token
 		}
 	case 10:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:117
+//line .\grammar.y:119
 		{
 			yyVAL.opt_export = nil
 		}
 	case 11:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:118
+//line .\grammar.y:120
 		{
 			yyVAL.opt_export = &yyDollar[1].token
 		}
 	case 12:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:121
+//line .\grammar.y:123
 		{
 			yyVAL.global_variables = make([]GlobalVariables, len(yyDollar[3].identifiers), len(yyDollar[3].identifiers))
 			for i, v := range yyDollar[3].identifiers {
@@ -797,44 +795,44 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:134
+//line .\grammar.y:136
 		{
 			isFunction(true, yylex)
 		}
 	case 14:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line .\grammar.y:135
+//line .\grammar.y:137
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeFunction, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[9].opt_explicit_variables, yyDollar[10].opt_body)
 			isFunction(false, yylex)
 		}
 	case 15:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line .\grammar.y:140
+//line .\grammar.y:142
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeProcedure, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[8].opt_explicit_variables, yyDollar[9].opt_body)
 		}
 	case 16:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:145
+//line .\grammar.y:147
 		{
 			yyVAL.opt_body = nil
 		}
 	case 17:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:146
+//line .\grammar.y:148
 		{
 			yyVAL.opt_body = yyDollar[1].body
 		}
 	case 18:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:150
+//line .\grammar.y:152
 		{
 			yyVAL.body = Statements{yyDollar[1].stmt}
 		}
 	case 19:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:151
+//line .\grammar.y:153
 		{
 			if yyDollar[2].token.literal == ":" {
 				label := false
@@ -853,43 +851,43 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:170
 		{
 			yyVAL.stmt = nil
 		}
 	case 21:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:169
+//line .\grammar.y:171
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:172
+//line .\grammar.y:174
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 23:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:172
+//line .\grammar.y:174
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:176
+//line .\grammar.y:178
 		{
 			yyVAL.opt_explicit_variables = map[string]VarStatement{}
 		}
 	case 25:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:177
+//line .\grammar.y:179
 		{
 			yyVAL.opt_explicit_variables = yyDollar[1].explicit_variables
 		}
 	case 26:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:180
+//line .\grammar.y:182
 		{
 			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -899,7 +897,7 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:187
+//line .\grammar.y:189
 		{
 			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -909,7 +907,7 @@ yydefault:
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:198
+//line .\grammar.y:200
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -920,13 +918,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:208
+//line .\grammar.y:210
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:209
+//line .\grammar.y:211
 		{
 			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
@@ -935,19 +933,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:217
+//line .\grammar.y:219
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:218
+//line .\grammar.y:220
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:221
+//line .\grammar.y:223
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -957,13 +955,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:230
+//line .\grammar.y:232
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:230
+//line .\grammar.y:232
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -974,13 +972,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:238
+//line .\grammar.y:240
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:238
+//line .\grammar.y:240
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -991,13 +989,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:246
+//line .\grammar.y:248
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:246
+//line .\grammar.y:248
 		{
 			yyVAL.stmt_loop = &LoopStatement{WhileExpr: yyDollar[2].stmt,
 				Body: yyDollar[5].opt_body,
@@ -1006,31 +1004,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:255
+//line .\grammar.y:257
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:256
+//line .\grammar.y:258
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:257
+//line .\grammar.y:259
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:258
+//line .\grammar.y:260
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:262
+//line .\grammar.y:264
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1040,246 +1038,246 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:271
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:272
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 47:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:273
+//line .\grammar.y:275
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:274
+//line .\grammar.y:276
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 51:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:275
+//line .\grammar.y:277
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:276
+//line .\grammar.y:278
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:277
+//line .\grammar.y:279
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 54:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:280
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:283
+//line .\grammar.y:285
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 56:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:284
+//line .\grammar.y:286
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 57:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:290
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 58:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:293
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:294
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 60:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:293
+//line .\grammar.y:295
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 61:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:294
+//line .\grammar.y:296
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 62:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:297
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:298
+//line .\grammar.y:300
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:303
 		{
 			setTryFlag(true, yylex)
 		}
 	case 65:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 66:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:317
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:319
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:320
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:321
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:322
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 80:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:321
+//line .\grammar.y:323
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:322
+//line .\grammar.y:324
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:323
+//line .\grammar.y:325
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:324
+//line .\grammar.y:326
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:325
+//line .\grammar.y:327
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1289,163 +1287,175 @@ yydefault:
 		}
 	case 85:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:334
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = nil
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:334
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:338
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 88:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:339
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:342
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:343
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:344
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:345
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:344
+//line .\grammar.y:346
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:345
+//line .\grammar.y:347
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:346
+//line .\grammar.y:348
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:347
+//line .\grammar.y:349
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:351
+//line .\grammar.y:353
 		{
-			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
+			yyVAL.declarations_method_param = yyDollar[1].declarations_method_param
 		}
 	case 98:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:352
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line .\grammar.y:354
 		{
-			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
+			yyVAL.declarations_method_param = *(yyDollar[1].declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 99:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:353
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:357
 		{
-			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
+			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 100:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line .\grammar.y:358
+		{
+			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
+		}
+	case 101:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:356
+//line .\grammar.y:361
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
-	case 101:
+	case 102:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:357
+//line .\grammar.y:362
+		{
+			yyVAL.declarations_method_params = yyDollar[1].declarations_method_params
+		}
+	case 103:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:365
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
-	case 102:
+	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:358
+//line .\grammar.y:366
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
-	case 103:
+	case 105:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:366
+//line .\grammar.y:374
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
-	case 104:
+	case 106:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:367
+//line .\grammar.y:375
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
-	case 105:
+	case 107:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:368
+//line .\grammar.y:376
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
-	case 106:
+	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:373
+//line .\grammar.y:381
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
-	case 107:
+	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:375
+//line .\grammar.y:383
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
-	case 108:
+	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:384
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
-	case 109:
+	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:379
+//line .\grammar.y:387
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-	case 110:
+	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:380
+//line .\grammar.y:388
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-	case 111:
+	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:381
+//line .\grammar.y:389
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 1b1fc988581485f0d603beba257f443fc0bdc192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 24/29] fix: a default value could be any signed expression
 instead of a literal

---
 ast/grammar.y |  17 +-
 ast/y.go      | 581 ++++++++++++++++++++++++++------------------------
 2 files changed, 319 insertions(+), 279 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 940b29e..a007f05 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -16,6 +16,8 @@ package ast
 %type<opt_export> opt_export
 %type<opt_directive> opt_directive 
 %type<stmt> simple_expr
+%type<stmt> literal
+%type<stmt> default_value
 %type<declarations_method_params> declarations_method_params
 %type<declarations_method_params> opt_method_params
 %type<declarations_method_param> declarations_method_param
@@ -339,19 +341,28 @@ exprs : opt_expr {$$ = ExprStatements{ Statements: Statements{$1}} }
 	| exprs comma opt_expr { $$.Statements = append($$.Statements, $3) }
 ;
 
-simple_expr: String { $$ = $1.value  }
-            | Number { $$ =  $1.value }
+simple_expr: literal { $$ = $1 }
             | '-' expr %prec UNARMinus { $$ = unaryMinus($2) }
             | '+' expr %prec UNARYPlus { $$ = $2 }
+;
+
+literal: String { $$ = $1.value  }
+            | Number { $$ =  $1.value }
             | True { $$ =  $1.value  }
             | False { $$ =  $1.value  }
             | Date { $$ =  $1.value  }
             | Undefind { $$ = UndefinedStatement{} }
 ;
 
+// значение по умолчанию может быть только литералом, число может быть со знаком
+default_value: literal { $$ = $1 }
+            | '-' Number { $$ = unaryMinus($2.value) }
+            | '+' Number { $$ = $2.value }
+;
+
 // опиасываются правила по которым можно объявлять параметры в функции или процедуре
 declarations_method_param: method_param { $$ = $1 } // обычный параметр
-            | method_param EQUAL simple_expr { $$ = *($1.DefaultValue($3)) } // необязательный параметр
+            | method_param EQUAL default_value { $$ = *($1.DefaultValue($3)) } // необязательный параметр
 ;
 
 method_param: token_identifier {  $$ = *(&ParamStatement{}).Fill(nil, $1) }
diff --git a/ast/y.go b/ast/y.go
index eeddbc4..a7b0ced 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -8,7 +8,7 @@ import __yyfmt__ "fmt"
 
 //line .\grammar.y:3
 
-//line .\grammar.y:44
+//line .\grammar.y:46
 type yySymType struct {
 	yys                        int
 	token                      Token
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:392
+//line .\grammar.y:403
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -182,113 +182,118 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 551
+const yyLast = 606
 
 var yyAct = [...]uint8{
-	72, 7, 122, 115, 7, 5, 148, 49, 198, 45,
-	21, 138, 24, 160, 55, 162, 25, 76, 74, 75,
-	53, 187, 181, 177, 142, 66, 63, 67, 68, 64,
-	65, 7, 116, 8, 70, 73, 82, 141, 128, 61,
-	62, 56, 57, 58, 59, 60, 116, 55, 116, 7,
-	71, 71, 131, 116, 95, 86, 71, 77, 93, 140,
-	4, 78, 80, 81, 66, 63, 67, 68, 64, 65,
-	91, 92, 56, 57, 58, 59, 60, 20, 61, 62,
-	56, 57, 58, 59, 60, 116, 90, 98, 201, 167,
-	100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
-	110, 111, 112, 146, 179, 143, 126, 32, 113, 97,
-	114, 89, 94, 26, 129, 58, 59, 60, 7, 42,
-	71, 172, 127, 133, 134, 183, 139, 140, 71, 130,
-	52, 51, 99, 132, 147, 151, 170, 7, 7, 206,
-	88, 32, 156, 157, 85, 83, 158, 152, 145, 71,
-	33, 154, 9, 135, 52, 51, 166, 176, 200, 52,
-	51, 164, 71, 69, 149, 178, 173, 42, 52, 51,
-	84, 7, 182, 123, 180, 7, 184, 159, 165, 125,
-	188, 168, 124, 171, 33, 121, 7, 7, 118, 189,
-	191, 194, 195, 192, 190, 153, 116, 43, 51, 7,
-	212, 202, 137, 207, 205, 7, 204, 44, 32, 210,
-	208, 139, 27, 54, 139, 211, 193, 28, 213, 51,
-	116, 52, 51, 15, 23, 136, 29, 26, 14, 30,
-	52, 51, 35, 34, 42, 52, 51, 17, 16, 203,
-	52, 51, 47, 2, 174, 38, 39, 41, 196, 40,
-	10, 33, 186, 175, 32, 37, 36, 6, 27, 52,
-	51, 46, 22, 28, 43, 197, 209, 3, 1, 15,
-	23, 18, 29, 26, 14, 30, 50, 48, 35, 34,
-	42, 13, 199, 17, 16, 150, 87, 163, 32, 161,
-	31, 38, 39, 41, 96, 40, 10, 33, 79, 169,
-	11, 37, 36, 19, 23, 12, 0, 0, 22, 0,
-	43, 0, 35, 34, 42, 0, 0, 0, 0, 0,
-	0, 32, 0, 0, 0, 38, 39, 41, 0, 40,
-	0, 33, 0, 0, 0, 37, 36, 23, 0, 0,
-	0, 0, 22, 0, 43, 35, 34, 42, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 38, 39,
-	41, 0, 40, 0, 33, 0, 0, 0, 37, 36,
-	116, 66, 63, 67, 68, 22, 65, 43, 66, 63,
-	67, 68, 64, 65, 185, 61, 62, 56, 57, 58,
-	59, 60, 61, 62, 56, 57, 58, 59, 60, 0,
-	0, 0, 144, 66, 63, 67, 68, 64, 65, 0,
-	66, 63, 67, 68, 64, 65, 155, 61, 62, 56,
-	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 0, 0, 0, 66, 63, 67, 68, 64, 65,
-	120, 0, 0, 0, 0, 0, 119, 0, 61, 62,
-	56, 57, 58, 59, 60, 0, 0, 0, 66, 63,
-	67, 68, 64, 65, 117, 66, 63, 67, 68, 64,
-	65, 0, 61, 62, 56, 57, 58, 59, 60, 61,
-	62, 56, 57, 58, 59, 60, 0, 0, 0, 0,
-	66, 63, 67, 68, 64, 65, 0, 66, 63, 67,
-	68, 64, 65, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 66, 63,
-	67, 68, 0, 0, 0, 0, 35, 34, 0, 0,
-	0, 0, 61, 62, 56, 57, 58, 59, 60, 38,
-	39, 41, 0, 40, 0, 0, 0, 0, 0, 37,
-	36,
+	73, 7, 5, 116, 7, 50, 46, 204, 123, 149,
+	34, 161, 8, 24, 139, 163, 25, 76, 56, 75,
+	77, 188, 182, 178, 54, 143, 117, 117, 117, 72,
+	72, 7, 117, 83, 142, 72, 78, 71, 74, 129,
+	79, 81, 82, 67, 64, 68, 69, 94, 92, 93,
+	7, 56, 57, 58, 59, 60, 61, 62, 63, 57,
+	58, 59, 60, 61, 32, 96, 4, 99, 91, 87,
+	101, 102, 103, 104, 105, 106, 107, 108, 109, 110,
+	111, 112, 113, 168, 147, 144, 117, 20, 114, 115,
+	37, 32, 141, 90, 59, 60, 61, 180, 53, 52,
+	72, 95, 128, 37, 203, 127, 202, 33, 72, 131,
+	173, 26, 135, 130, 184, 171, 98, 212, 154, 7,
+	38, 134, 89, 206, 86, 84, 124, 140, 141, 72,
+	218, 53, 52, 136, 33, 148, 152, 133, 7, 7,
+	157, 158, 72, 100, 181, 159, 9, 146, 165, 153,
+	85, 160, 155, 53, 52, 167, 126, 70, 177, 53,
+	52, 169, 125, 172, 119, 166, 179, 117, 174, 52,
+	117, 52, 7, 183, 185, 138, 7, 209, 189, 122,
+	53, 52, 53, 52, 53, 52, 55, 7, 7, 198,
+	199, 193, 137, 190, 150, 191, 197, 196, 200, 175,
+	176, 53, 52, 53, 52, 7, 187, 211, 208, 210,
+	215, 7, 6, 214, 201, 213, 47, 140, 3, 217,
+	140, 216, 219, 39, 32, 48, 2, 1, 27, 18,
+	51, 49, 13, 28, 205, 151, 88, 164, 162, 15,
+	23, 192, 29, 26, 14, 30, 21, 31, 41, 40,
+	37, 97, 170, 17, 16, 11, 19, 12, 0, 0,
+	0, 42, 43, 45, 0, 44, 10, 33, 0, 0,
+	32, 36, 35, 0, 27, 0, 0, 0, 22, 28,
+	38, 0, 0, 0, 0, 15, 23, 0, 29, 26,
+	14, 30, 0, 0, 41, 40, 37, 0, 0, 17,
+	16, 0, 0, 0, 0, 0, 0, 42, 43, 45,
+	0, 44, 10, 33, 0, 0, 0, 36, 35, 0,
+	0, 0, 0, 0, 22, 0, 38, 67, 64, 68,
+	69, 65, 66, 0, 0, 0, 0, 0, 0, 32,
+	0, 62, 63, 57, 58, 59, 60, 61, 0, 80,
+	0, 0, 0, 0, 132, 23, 0, 0, 0, 32,
+	0, 0, 0, 41, 40, 37, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 23, 42, 43, 45, 0,
+	44, 0, 33, 41, 40, 37, 36, 35, 0, 0,
+	0, 0, 0, 22, 0, 38, 42, 43, 45, 0,
+	44, 0, 33, 0, 0, 0, 36, 35, 0, 67,
+	64, 68, 69, 22, 66, 38, 67, 64, 68, 69,
+	65, 66, 0, 62, 63, 57, 58, 59, 60, 61,
+	62, 63, 57, 58, 59, 60, 61, 0, 0, 0,
+	207, 67, 64, 68, 69, 65, 66, 186, 117, 0,
+	0, 0, 0, 0, 0, 62, 63, 57, 58, 59,
+	60, 61, 0, 0, 0, 145, 0, 0, 0, 0,
+	0, 0, 0, 67, 64, 68, 69, 65, 66, 0,
+	0, 67, 64, 68, 69, 65, 66, 62, 63, 57,
+	58, 59, 60, 61, 156, 62, 63, 57, 58, 59,
+	60, 61, 121, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 67, 64, 68, 69, 65, 66, 118, 0,
+	67, 64, 68, 69, 65, 66, 62, 63, 57, 58,
+	59, 60, 61, 120, 62, 63, 57, 58, 59, 60,
+	61, 0, 0, 0, 67, 64, 68, 69, 65, 66,
+	0, 0, 67, 64, 68, 69, 65, 66, 62, 63,
+	57, 58, 59, 60, 61, 0, 62, 63, 57, 58,
+	59, 60, 61, 67, 64, 68, 69, 65, 66, 0,
+	0, 41, 40, 0, 0, 0, 0, 62, 63, 57,
+	58, 59, 60, 61, 42, 43, 45, 0, 44, 0,
+	0, 0, 0, 0, 195, 194,
 }
 
 var yyPact = [...]int16{
-	200, -1000, -1000, 200, -1000, 236, -1000, -20, 458, -1000,
-	86, -1000, -1000, -1000, -1000, -1000, 313, 313, -1000, -1000,
-	-47, -1000, 313, 313, -1000, -1000, -1000, 313, 280, 313,
-	246, 135, -7, 78, -1000, -1000, 313, 313, -1000, -1000,
-	-1000, -1000, 50, -8, -1000, 236, -1000, -1000, 246, -1000,
-	-1000, -1000, -1000, 313, 99, -1000, 313, 313, 313, 313,
-	313, 313, 313, 313, 313, 313, 313, 313, 313, -1000,
-	-1000, 458, -53, -1000, 313, 47, -1000, 479, 451, 180,
-	426, 419, 155, 165, 174, 171, 313, -1000, 313, -1000,
-	-1000, -1000, -1000, -24, 313, 313, -1000, -1000, 458, -47,
-	58, 58, -1000, -1000, -1000, 17, 17, 17, 332, 479,
-	17, 17, 17, -14, -1000, 313, -1000, 246, 105, 313,
-	-1000, -1000, 79, -1000, -25, -38, 42, 339, 313, 40,
-	364, -1000, -1000, 150, 133, 395, 246, 246, 193, 169,
-	-1000, 153, 153, -1000, -1000, 26, -1000, 313, 121, 313,
-	100, -53, -1000, 85, -1000, -1000, 231, 126, -1000, -1000,
-	-40, 190, -1000, 64, -1000, 166, -41, -1000, 364, 109,
-	246, 371, -1000, -42, 246, -1000, -1000, 11, 153, 494,
-	-1000, 11, 313, -1000, 236, 246, 246, -1000, 226, -1000,
-	-1000, -1000, 148, 25, 150, 217, -1000, 148, 246, 129,
-	165, -1000, -1000, -1000, 246, 255, 165, 214, 164, -1000,
-	214, -1000, -1000, -1000,
+	216, -1000, -1000, 216, -1000, 197, -1000, -16, 534, -1000,
+	84, -1000, -1000, -1000, -1000, -1000, 351, 351, -1000, -1000,
+	-46, -1000, 351, 351, -1000, -1000, -1000, 351, 331, 351,
+	262, 115, 7, 60, -1000, 351, 351, 39, 3, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 197, -1000, -1000, 262,
+	-1000, -1000, -1000, -1000, 351, 83, -1000, 351, 351, 351,
+	351, 351, 351, 351, 351, 351, 351, 351, 351, 351,
+	-1000, -1000, 534, -49, -1000, 351, 26, -1000, 4, 505,
+	156, 513, 481, 149, 118, 154, 148, 351, -1000, 351,
+	-1000, -1000, -1000, -1000, -23, 351, 351, -1000, -1000, 534,
+	-46, 37, 37, -1000, -1000, -1000, -3, -3, -3, 370,
+	4, -3, -3, -3, 288, -1000, 351, -1000, 262, 93,
+	351, -1000, -1000, 80, -1000, -28, -37, 22, 402, 351,
+	21, 442, -1000, -1000, 180, 56, 473, 262, 262, 166,
+	143, -1000, 140, 140, -1000, -1000, 20, -1000, 351, 100,
+	351, 89, -49, -1000, 69, -1000, -1000, 178, 127, -1000,
+	-1000, -40, 161, -1000, 57, -1000, 136, -41, -1000, 442,
+	98, 262, 434, -1000, -42, 262, -1000, -1000, 44, 140,
+	549, -1000, 44, 351, -1000, 197, 262, 262, -1000, 176,
+	-1000, -1000, -1000, -1000, 74, 72, 113, 377, 180, 155,
+	-1000, 113, -1000, -1000, 262, 107, 118, -1000, -1000, -1000,
+	262, 199, 118, 164, 94, -1000, 164, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 242, 5, 60, 305, 303, 300, 6, 299, 294,
-	19, 33, 11, 290, 10, 289, 13, 15, 287, 17,
-	286, 0, 285, 12, 16, 8, 282, 2, 281, 77,
-	152, 277, 7, 276, 271, 3, 268, 267, 257, 265,
-	252, 244, 225, 213, 202,
+	0, 225, 2, 66, 257, 256, 255, 9, 252, 251,
+	17, 12, 14, 247, 246, 10, 241, 238, 11, 15,
+	237, 20, 236, 0, 235, 13, 16, 7, 234, 8,
+	232, 87, 146, 231, 5, 230, 229, 3, 227, 218,
+	212, 214, 206, 199, 192, 186, 175,
 }
 
 var yyR1 = [...]int8{
-	0, 36, 36, 36, 37, 37, 38, 38, 13, 13,
-	12, 12, 34, 39, 5, 5, 2, 2, 1, 1,
-	9, 9, 31, 31, 25, 25, 26, 26, 6, 7,
-	7, 8, 8, 24, 40, 4, 41, 4, 42, 4,
-	22, 22, 22, 22, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 3, 21, 21, 29, 29, 29,
-	29, 29, 20, 20, 44, 28, 11, 11, 11, 11,
+	0, 38, 38, 38, 39, 39, 40, 40, 13, 13,
+	12, 12, 36, 41, 5, 5, 2, 2, 1, 1,
+	9, 9, 33, 33, 27, 27, 28, 28, 6, 7,
+	7, 8, 8, 26, 42, 4, 43, 4, 44, 4,
+	24, 24, 24, 24, 3, 3, 3, 3, 3, 3,
+	3, 3, 3, 3, 3, 23, 23, 31, 31, 31,
+	31, 31, 22, 22, 46, 30, 11, 11, 11, 11,
 	11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
-	11, 11, 11, 11, 11, 19, 19, 10, 10, 14,
-	14, 14, 14, 14, 14, 14, 14, 17, 17, 18,
-	18, 16, 16, 15, 15, 23, 23, 23, 30, 27,
-	27, 32, 33, 35, 43,
+	11, 11, 11, 11, 11, 21, 21, 10, 10, 14,
+	14, 14, 15, 15, 15, 15, 15, 15, 16, 16,
+	16, 19, 19, 20, 20, 18, 18, 17, 17, 25,
+	25, 25, 32, 29, 29, 34, 35, 37, 45,
 }
 
 var yyR2 = [...]int8{
@@ -301,59 +306,59 @@ var yyR2 = [...]int8{
 	2, 4, 1, 1, 0, 6, 1, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 2, 1, 1, 1, 0, 1, 1, 3, 1,
-	1, 2, 2, 1, 1, 1, 1, 1, 3, 1,
-	2, 0, 1, 1, 3, 2, 5, 4, 1, 1,
-	3, 1, 1, 1, 1,
+	2, 2, 1, 1, 1, 1, 1, 1, 1, 2,
+	2, 1, 3, 1, 2, 0, 1, 1, 3, 2,
+	5, 4, 1, 1, 3, 1, 1, 1, 1,
 }
 
 var yyChk = [...]int16{
-	-1000, -36, -1, -37, -3, -2, -38, -21, -11, -30,
-	50, -6, -4, -28, 28, 23, 38, 37, -34, -5,
-	-29, -14, 62, 24, -23, -24, 27, 12, 17, 26,
-	29, -13, 8, 51, 33, 32, 56, 55, 45, 46,
-	49, 47, 34, 64, 7, -2, -38, -1, -31, -32,
-	-33, 5, 4, 40, -43, 67, 55, 56, 57, 58,
-	59, 53, 54, 40, 43, 44, 39, 41, 42, -30,
-	-19, -11, -21, -19, 65, -10, -19, -11, -11, 18,
-	-11, -11, -2, 10, 35, 9, 62, -20, 62, 33,
-	8, -11, -11, 8, 62, 62, -9, -3, -11, -29,
-	-11, -11, -11, -11, -11, -11, -11, -11, -11, -11,
-	-11, -11, -11, -11, 63, -35, 6, 13, 8, 20,
-	21, 30, -27, 8, 8, 8, -10, -11, 62, -10,
-	-11, 66, -19, -2, 19, -11, -42, -44, -12, -35,
-	48, 62, 62, 63, 63, -10, 63, -35, -7, 14,
-	-22, -21, -23, 62, -24, 21, -2, -2, -32, 8,
-	-16, -15, -17, -18, 8, 25, -16, 63, -11, -8,
-	15, -11, 21, -23, -41, 22, 31, 63, -35, 40,
-	8, 63, -35, 16, -2, 13, -40, 63, -2, -12,
-	-17, -14, -12, -11, -2, -2, 22, -39, -25, -26,
-	10, 63, -7, 22, -25, -2, 10, -27, -2, 11,
-	-27, -32, 36, -32,
+	-1000, -38, -1, -39, -3, -2, -40, -23, -11, -32,
+	50, -6, -4, -30, 28, 23, 38, 37, -36, -5,
+	-31, -14, 62, 24, -25, -26, 27, 12, 17, 26,
+	29, -13, 8, 51, -15, 56, 55, 34, 64, 7,
+	33, 32, 45, 46, 49, 47, -2, -40, -1, -33,
+	-34, -35, 5, 4, 40, -45, 67, 55, 56, 57,
+	58, 59, 53, 54, 40, 43, 44, 39, 41, 42,
+	-32, -21, -11, -23, -21, 65, -10, -21, -11, -11,
+	18, -11, -11, -2, 10, 35, 9, 62, -22, 62,
+	33, 8, -11, -11, 8, 62, 62, -9, -3, -11,
+	-31, -11, -11, -11, -11, -11, -11, -11, -11, -11,
+	-11, -11, -11, -11, -11, 63, -37, 6, 13, 8,
+	20, 21, 30, -29, 8, 8, 8, -10, -11, 62,
+	-10, -11, 66, -21, -2, 19, -11, -44, -46, -12,
+	-37, 48, 62, 62, 63, 63, -10, 63, -37, -7,
+	14, -24, -23, -25, 62, -26, 21, -2, -2, -34,
+	8, -18, -17, -19, -20, 8, 25, -18, 63, -11,
+	-8, 15, -11, 21, -25, -43, 22, 31, 63, -37,
+	40, 8, 63, -37, 16, -2, 13, -42, 63, -2,
+	-12, -19, -16, -15, 56, 55, -12, -11, -2, -2,
+	22, -41, 32, 32, -27, -28, 10, 63, -7, 22,
+	-27, -2, 10, -29, -2, 11, -29, -34, 36, -34,
 }
 
 var yyDef = [...]int8{
 	-2, -2, -2, -2, 18, 0, 4, 84, 45, 46,
 	0, 48, 49, 50, 51, 52, 85, 85, 6, 7,
-	55, 66, 85, 0, 82, 83, 108, 0, 0, 0,
-	16, 0, 57, 0, 89, 90, 0, 0, 93, 94,
-	95, 96, 0, 0, 9, 3, 5, 17, 20, 22,
-	23, 111, 112, 0, 0, 114, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 47,
-	53, 86, 84, 54, 0, 0, 87, 81, 0, 0,
-	0, 0, 0, 0, 0, 0, 85, 60, 0, 62,
-	63, 91, 92, 105, 85, 0, 19, 21, 44, 56,
-	68, 69, 70, 71, 72, 73, 74, 75, 76, 77,
-	78, 79, 80, 0, 67, 85, 113, 16, 0, 0,
-	38, 64, 10, 109, 0, 0, 0, 0, 85, 0,
-	0, 59, 88, 29, 0, 0, 16, 16, 0, 0,
-	11, 101, 101, 58, 61, 0, 107, 0, 31, 0,
-	0, 40, 41, 0, 43, 36, 0, 0, 12, 110,
-	0, 102, 103, 97, 99, 0, 0, 106, 0, 0,
-	16, 0, 34, 0, 16, 39, 65, 10, 0, 0,
-	100, 10, 0, 28, 32, 16, 16, 42, 0, 13,
-	104, 98, 24, 0, 29, 0, 37, 24, 16, 25,
-	0, 33, 30, 35, 16, 0, 0, 0, 0, 15,
-	0, 26, 14, 27,
+	55, 66, 85, 0, 82, 83, 112, 0, 0, 0,
+	16, 0, 57, 0, 89, 0, 0, 0, 0, 9,
+	92, 93, 94, 95, 96, 97, 3, 5, 17, 20,
+	22, 23, 115, 116, 0, 0, 118, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	47, 53, 86, 84, 54, 0, 0, 87, 81, 0,
+	0, 0, 0, 0, 0, 0, 0, 85, 60, 0,
+	62, 63, 90, 91, 109, 85, 0, 19, 21, 44,
+	56, 68, 69, 70, 71, 72, 73, 74, 75, 76,
+	77, 78, 79, 80, 0, 67, 85, 117, 16, 0,
+	0, 38, 64, 10, 113, 0, 0, 0, 0, 85,
+	0, 0, 59, 88, 29, 0, 0, 16, 16, 0,
+	0, 11, 105, 105, 58, 61, 0, 111, 0, 31,
+	0, 0, 40, 41, 0, 43, 36, 0, 0, 12,
+	114, 0, 106, 107, 101, 103, 0, 0, 110, 0,
+	0, 16, 0, 34, 0, 16, 39, 65, 10, 0,
+	0, 104, 10, 0, 28, 32, 16, 16, 42, 0,
+	13, 108, 102, 98, 0, 0, 24, 0, 29, 0,
+	37, 24, 99, 100, 16, 25, 0, 33, 30, 35,
+	16, 0, 0, 0, 0, 15, 0, 26, 14, 27,
 }
 
 var yyTok1 = [...]int8{
@@ -720,12 +725,12 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:87
+//line .\grammar.y:89
 		{
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:88
+//line .\grammar.y:90
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].body, yylex)
@@ -733,7 +738,7 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:93
+//line .\grammar.y:95
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[2].opt_body, yylex)
@@ -741,7 +746,7 @@ yydefault:
 		}
 	case 6:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:103
+//line .\grammar.y:105
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].global_variables, yylex)
@@ -749,7 +754,7 @@ yydefault:
 		}
 	case 7:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:108
+//line .\grammar.y:110
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].funcProc, yylex)
@@ -757,31 +762,31 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:115
+//line .\grammar.y:117
 		{
 			yyVAL.opt_directive = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:116
+//line .\grammar.y:118
 		{
 			yyVAL.opt_directive = &yyDollar[1].token
 		}
 	case 10:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:119
+//line .\grammar.y:121
 		{
 			yyVAL.opt_export = nil
 		}
 	case 11:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:120
+//line .\grammar.y:122
 		{
 			yyVAL.opt_export = &yyDollar[1].token
 		}
 	case 12:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:123
+//line .\grammar.y:125
 		{
 			yyVAL.global_variables = make([]GlobalVariables, len(yyDollar[3].identifiers), len(yyDollar[3].identifiers))
 			for i, v := range yyDollar[3].identifiers {
@@ -795,44 +800,44 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:136
+//line .\grammar.y:138
 		{
 			isFunction(true, yylex)
 		}
 	case 14:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line .\grammar.y:137
+//line .\grammar.y:139
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeFunction, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[9].opt_explicit_variables, yyDollar[10].opt_body)
 			isFunction(false, yylex)
 		}
 	case 15:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line .\grammar.y:142
+//line .\grammar.y:144
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeProcedure, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[8].opt_explicit_variables, yyDollar[9].opt_body)
 		}
 	case 16:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:147
+//line .\grammar.y:149
 		{
 			yyVAL.opt_body = nil
 		}
 	case 17:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:148
+//line .\grammar.y:150
 		{
 			yyVAL.opt_body = yyDollar[1].body
 		}
 	case 18:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:152
+//line .\grammar.y:154
 		{
 			yyVAL.body = Statements{yyDollar[1].stmt}
 		}
 	case 19:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:153
+//line .\grammar.y:155
 		{
 			if yyDollar[2].token.literal == ":" {
 				label := false
@@ -851,43 +856,43 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:170
+//line .\grammar.y:172
 		{
 			yyVAL.stmt = nil
 		}
 	case 21:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:171
+//line .\grammar.y:173
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:174
+//line .\grammar.y:176
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 23:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:174
+//line .\grammar.y:176
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:178
+//line .\grammar.y:180
 		{
 			yyVAL.opt_explicit_variables = map[string]VarStatement{}
 		}
 	case 25:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:179
+//line .\grammar.y:181
 		{
 			yyVAL.opt_explicit_variables = yyDollar[1].explicit_variables
 		}
 	case 26:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:182
+//line .\grammar.y:184
 		{
 			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -897,7 +902,7 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:189
+//line .\grammar.y:191
 		{
 			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -907,7 +912,7 @@ yydefault:
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:200
+//line .\grammar.y:202
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -918,13 +923,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:210
+//line .\grammar.y:212
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:211
+//line .\grammar.y:213
 		{
 			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
@@ -933,19 +938,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:219
+//line .\grammar.y:221
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:220
+//line .\grammar.y:222
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:223
+//line .\grammar.y:225
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -955,13 +960,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:232
+//line .\grammar.y:234
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:232
+//line .\grammar.y:234
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -972,13 +977,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:240
+//line .\grammar.y:242
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:240
+//line .\grammar.y:242
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -989,13 +994,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:248
+//line .\grammar.y:250
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:248
+//line .\grammar.y:250
 		{
 			yyVAL.stmt_loop = &LoopStatement{WhileExpr: yyDollar[2].stmt,
 				Body: yyDollar[5].opt_body,
@@ -1004,31 +1009,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:257
+//line .\grammar.y:259
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:258
+//line .\grammar.y:260
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:259
+//line .\grammar.y:261
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:260
+//line .\grammar.y:262
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:264
+//line .\grammar.y:266
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1038,246 +1043,246 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 47:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:273
+//line .\grammar.y:275
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:274
+//line .\grammar.y:276
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:275
+//line .\grammar.y:277
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:276
+//line .\grammar.y:278
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 51:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:277
+//line .\grammar.y:279
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:280
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:279
+//line .\grammar.y:281
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 54:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:280
+//line .\grammar.y:282
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:287
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 56:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 57:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:294
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 58:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:293
+//line .\grammar.y:295
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:294
+//line .\grammar.y:296
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 60:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:297
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 61:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:296
+//line .\grammar.y:298
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 62:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:299
+//line .\grammar.y:301
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:300
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:305
 		{
 			setTryFlag(true, yylex)
 		}
 	case 65:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 66:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:317
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:319
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:320
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:321
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:322
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:321
+//line .\grammar.y:323
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:322
+//line .\grammar.y:324
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 80:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:323
+//line .\grammar.y:325
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:324
+//line .\grammar.y:326
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:325
+//line .\grammar.y:327
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:326
+//line .\grammar.y:328
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:327
+//line .\grammar.y:329
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1287,175 +1292,199 @@ yydefault:
 		}
 	case 85:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = nil
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:340
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 88:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:341
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:344
 		{
-			yyVAL.stmt = yyDollar[1].token.value
+			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 90:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line .\grammar.y:345
 		{
-			yyVAL.stmt = yyDollar[1].token.value
+			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:344
+//line .\grammar.y:346
 		{
-			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
+			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:345
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:349
 		{
-			yyVAL.stmt = yyDollar[2].stmt
+			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:346
+//line .\grammar.y:350
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:347
+//line .\grammar.y:351
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:352
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:353
 		{
-			yyVAL.stmt = UndefinedStatement{}
+			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:353
+//line .\grammar.y:354
 		{
-			yyVAL.declarations_method_param = yyDollar[1].declarations_method_param
+			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 98:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:358
+		{
+			yyVAL.stmt = yyDollar[1].stmt
+		}
+	case 99:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line .\grammar.y:359
+		{
+			yyVAL.stmt = unaryMinus(yyDollar[2].token.value)
+		}
+	case 100:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line .\grammar.y:360
+		{
+			yyVAL.stmt = yyDollar[2].token.value
+		}
+	case 101:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:364
+		{
+			yyVAL.declarations_method_param = yyDollar[1].declarations_method_param
+		}
+	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:365
 		{
 			yyVAL.declarations_method_param = *(yyDollar[1].declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
-	case 99:
+	case 103:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:357
+//line .\grammar.y:368
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
-	case 100:
+	case 104:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:358
+//line .\grammar.y:369
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
-	case 101:
+	case 105:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:361
+//line .\grammar.y:372
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
-	case 102:
+	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:362
+//line .\grammar.y:373
 		{
 			yyVAL.declarations_method_params = yyDollar[1].declarations_method_params
 		}
-	case 103:
+	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:365
+//line .\grammar.y:376
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
-	case 104:
+	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:366
+//line .\grammar.y:377
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
-	case 105:
+	case 109:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:374
+//line .\grammar.y:385
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
-	case 106:
+	case 110:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:375
+//line .\grammar.y:386
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
-	case 107:
+	case 111:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:387
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
-	case 108:
+	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:381
+//line .\grammar.y:392
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
-	case 109:
+	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:383
+//line .\grammar.y:394
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
-	case 110:
+	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:384
+//line .\grammar.y:395
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
-	case 111:
+	case 115:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:387
+//line .\grammar.y:398
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-	case 112:
+	case 116:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:388
+//line .\grammar.y:399
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-	case 113:
+	case 117:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:389
+//line .\grammar.y:400
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 827d26b6faaf1e487fc7067466055bb8d3822c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 25/29] fix: lists of several or no values in parentheses were
 accepted as an operand
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'а = (1, 2);' and 'б = ();' parsed; only ВызватьИсключение takes several
values in parentheses.
---
 ast/grammar.y |   3 +-
 ast/y.go      | 502 ++++++++++++++++++++++++++------------------------
 2 files changed, 262 insertions(+), 243 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index a007f05..67d5e11 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -279,6 +279,7 @@ stmt : through_dot EQUAL expr {
     | Continue { $$ = ContinueStatement{}; checkLoopOperator($1, yylex) }
     | Break { $$ = BreakStatement{}; checkLoopOperator($1, yylex) }
     | Throw opt_expr { $$ = ThrowStatement{ Param: $2 }; checkThrowParam($1, $2, yylex) }
+    | Throw '(' expr comma exprs ')' { $$ = ThrowStatement{ Param: ExprStatements{ Statements: append(Statements{$3}, $5.Statements...)} } }
     | Return opt_expr { $$ = &ReturnStatement{ Param: $2 }; checkReturnParam($2, yylex) }
 ;
 
@@ -309,7 +310,7 @@ stmt_tryCatch: Try opt_body Catch { setTryFlag(true, yylex) } opt_body EndTry {
 
 /* все что может учавствовать в выражениях */
 expr : simple_expr { $$ = $1 }
-    | '(' exprs ')' { $$ = $2 }
+    | '(' expr ')' { $$ = ExprStatements{ Statements: Statements{$2}} }
     | expr '+' expr { $$ = &ExpStatement{Operation: OpPlus, Left: $1, Right: $3} }
     | expr '-' expr { $$ = &ExpStatement{Operation: OpMinus, Left: $1, Right: $3} }
     | expr '*' expr { $$ = &ExpStatement{Operation: OpMul, Left: $1, Right: $3} }
diff --git a/ast/y.go b/ast/y.go
index a7b0ced..6ce8e3c 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:403
+//line .\grammar.y:404
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -182,103 +182,113 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 606
+const yyLast = 693
 
 var yyAct = [...]uint8{
-	73, 7, 5, 116, 7, 50, 46, 204, 123, 149,
-	34, 161, 8, 24, 139, 163, 25, 76, 56, 75,
-	77, 188, 182, 178, 54, 143, 117, 117, 117, 72,
-	72, 7, 117, 83, 142, 72, 78, 71, 74, 129,
-	79, 81, 82, 67, 64, 68, 69, 94, 92, 93,
-	7, 56, 57, 58, 59, 60, 61, 62, 63, 57,
-	58, 59, 60, 61, 32, 96, 4, 99, 91, 87,
-	101, 102, 103, 104, 105, 106, 107, 108, 109, 110,
-	111, 112, 113, 168, 147, 144, 117, 20, 114, 115,
-	37, 32, 141, 90, 59, 60, 61, 180, 53, 52,
-	72, 95, 128, 37, 203, 127, 202, 33, 72, 131,
-	173, 26, 135, 130, 184, 171, 98, 212, 154, 7,
-	38, 134, 89, 206, 86, 84, 124, 140, 141, 72,
-	218, 53, 52, 136, 33, 148, 152, 133, 7, 7,
-	157, 158, 72, 100, 181, 159, 9, 146, 165, 153,
-	85, 160, 155, 53, 52, 167, 126, 70, 177, 53,
-	52, 169, 125, 172, 119, 166, 179, 117, 174, 52,
-	117, 52, 7, 183, 185, 138, 7, 209, 189, 122,
-	53, 52, 53, 52, 53, 52, 55, 7, 7, 198,
-	199, 193, 137, 190, 150, 191, 197, 196, 200, 175,
-	176, 53, 52, 53, 52, 7, 187, 211, 208, 210,
-	215, 7, 6, 214, 201, 213, 47, 140, 3, 217,
-	140, 216, 219, 39, 32, 48, 2, 1, 27, 18,
-	51, 49, 13, 28, 205, 151, 88, 164, 162, 15,
-	23, 192, 29, 26, 14, 30, 21, 31, 41, 40,
-	37, 97, 170, 17, 16, 11, 19, 12, 0, 0,
-	0, 42, 43, 45, 0, 44, 10, 33, 0, 0,
-	32, 36, 35, 0, 27, 0, 0, 0, 22, 28,
-	38, 0, 0, 0, 0, 15, 23, 0, 29, 26,
-	14, 30, 0, 0, 41, 40, 37, 0, 0, 17,
-	16, 0, 0, 0, 0, 0, 0, 42, 43, 45,
-	0, 44, 10, 33, 0, 0, 0, 36, 35, 0,
-	0, 0, 0, 0, 22, 0, 38, 67, 64, 68,
-	69, 65, 66, 0, 0, 0, 0, 0, 0, 32,
-	0, 62, 63, 57, 58, 59, 60, 61, 0, 80,
-	0, 0, 0, 0, 132, 23, 0, 0, 0, 32,
-	0, 0, 0, 41, 40, 37, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 23, 42, 43, 45, 0,
-	44, 0, 33, 41, 40, 37, 36, 35, 0, 0,
-	0, 0, 0, 22, 0, 38, 42, 43, 45, 0,
-	44, 0, 33, 0, 0, 0, 36, 35, 0, 67,
-	64, 68, 69, 22, 66, 38, 67, 64, 68, 69,
-	65, 66, 0, 62, 63, 57, 58, 59, 60, 61,
-	62, 63, 57, 58, 59, 60, 61, 0, 0, 0,
-	207, 67, 64, 68, 69, 65, 66, 186, 117, 0,
-	0, 0, 0, 0, 0, 62, 63, 57, 58, 59,
-	60, 61, 0, 0, 0, 145, 0, 0, 0, 0,
-	0, 0, 0, 67, 64, 68, 69, 65, 66, 0,
-	0, 67, 64, 68, 69, 65, 66, 62, 63, 57,
-	58, 59, 60, 61, 156, 62, 63, 57, 58, 59,
-	60, 61, 121, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 67, 64, 68, 69, 65, 66, 118, 0,
-	67, 64, 68, 69, 65, 66, 62, 63, 57, 58,
-	59, 60, 61, 120, 62, 63, 57, 58, 59, 60,
-	61, 0, 0, 0, 67, 64, 68, 69, 65, 66,
-	0, 0, 67, 64, 68, 69, 65, 66, 62, 63,
-	57, 58, 59, 60, 61, 0, 62, 63, 57, 58,
-	59, 60, 61, 67, 64, 68, 69, 65, 66, 0,
-	0, 41, 40, 0, 0, 0, 0, 62, 63, 57,
-	58, 59, 60, 61, 42, 43, 45, 0, 44, 0,
-	0, 0, 0, 0, 195, 194,
+	74, 7, 146, 5, 7, 122, 50, 46, 209, 166,
+	152, 127, 34, 140, 24, 8, 164, 25, 56, 126,
+	76, 193, 187, 183, 144, 143, 54, 129, 71, 75,
+	133, 7, 73, 73, 83, 94, 133, 133, 77, 78,
+	133, 96, 87, 79, 81, 82, 67, 64, 68, 69,
+	7, 92, 93, 56, 57, 58, 59, 60, 61, 32,
+	62, 63, 57, 58, 59, 60, 61, 59, 60, 61,
+	99, 20, 4, 101, 102, 103, 104, 105, 106, 107,
+	108, 109, 110, 111, 112, 113, 133, 174, 114, 95,
+	32, 142, 115, 172, 149, 185, 37, 145, 208, 91,
+	53, 52, 33, 73, 207, 128, 26, 178, 136, 53,
+	52, 73, 131, 189, 168, 130, 37, 132, 7, 176,
+	217, 135, 98, 211, 90, 141, 123, 100, 142, 86,
+	84, 169, 223, 33, 150, 137, 182, 155, 186, 7,
+	7, 163, 160, 161, 157, 73, 38, 162, 73, 148,
+	125, 156, 151, 89, 158, 85, 53, 52, 171, 124,
+	133, 170, 73, 118, 9, 52, 173, 139, 184, 177,
+	53, 52, 179, 53, 52, 70, 188, 7, 52, 133,
+	190, 7, 121, 6, 194, 53, 52, 47, 214, 53,
+	52, 205, 7, 7, 196, 203, 204, 195, 198, 153,
+	55, 201, 138, 181, 202, 53, 52, 53, 52, 180,
+	7, 192, 220, 216, 213, 215, 7, 218, 206, 219,
+	3, 141, 1, 221, 141, 222, 39, 32, 224, 48,
+	2, 27, 18, 51, 49, 13, 28, 210, 154, 88,
+	167, 165, 15, 23, 197, 29, 26, 14, 30, 21,
+	31, 41, 40, 37, 97, 175, 17, 16, 11, 19,
+	12, 0, 0, 0, 42, 43, 45, 0, 44, 10,
+	33, 0, 0, 32, 36, 35, 0, 27, 0, 0,
+	0, 22, 28, 38, 0, 0, 0, 0, 15, 23,
+	0, 29, 26, 14, 30, 0, 0, 41, 40, 37,
+	0, 0, 17, 16, 0, 0, 0, 0, 0, 0,
+	42, 43, 45, 0, 44, 10, 33, 0, 0, 0,
+	36, 35, 0, 0, 0, 0, 0, 22, 0, 38,
+	67, 64, 68, 69, 65, 66, 0, 0, 0, 0,
+	0, 0, 32, 0, 62, 63, 57, 58, 59, 60,
+	61, 0, 80, 0, 0, 0, 0, 134, 23, 0,
+	0, 0, 32, 0, 0, 0, 41, 40, 37, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 23, 42,
+	43, 45, 0, 44, 0, 33, 41, 40, 37, 36,
+	35, 133, 0, 0, 0, 0, 22, 0, 38, 42,
+	43, 45, 0, 44, 0, 33, 0, 0, 0, 36,
+	35, 0, 0, 0, 0, 0, 22, 0, 38, 0,
+	0, 32, 0, 0, 67, 64, 68, 69, 65, 66,
+	0, 0, 0, 0, 0, 0, 0, 23, 62, 63,
+	57, 58, 59, 60, 61, 41, 40, 37, 116, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 42, 43,
+	45, 0, 44, 0, 33, 0, 0, 0, 36, 35,
+	0, 67, 64, 68, 69, 72, 66, 38, 67, 64,
+	68, 69, 65, 66, 0, 62, 63, 57, 58, 59,
+	60, 61, 62, 63, 57, 58, 59, 60, 61, 0,
+	0, 0, 212, 67, 64, 68, 69, 65, 66, 0,
+	0, 0, 0, 0, 0, 0, 0, 62, 63, 57,
+	58, 59, 60, 61, 0, 0, 0, 147, 67, 64,
+	68, 69, 65, 66, 191, 133, 0, 0, 0, 0,
+	0, 0, 62, 63, 57, 58, 59, 60, 61, 0,
+	0, 0, 116, 0, 0, 0, 0, 0, 0, 0,
+	67, 64, 68, 69, 65, 66, 0, 0, 67, 64,
+	68, 69, 65, 66, 62, 63, 57, 58, 59, 60,
+	61, 159, 62, 63, 57, 58, 59, 60, 61, 120,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 67,
+	64, 68, 69, 65, 66, 117, 0, 67, 64, 68,
+	69, 65, 66, 62, 63, 57, 58, 59, 60, 61,
+	119, 62, 63, 57, 58, 59, 60, 61, 0, 0,
+	0, 67, 64, 68, 69, 65, 66, 0, 0, 67,
+	64, 68, 69, 65, 66, 62, 63, 57, 58, 59,
+	60, 61, 0, 62, 63, 57, 58, 59, 60, 61,
+	67, 64, 68, 69, 65, 66, 0, 0, 41, 40,
+	0, 0, 0, 0, 62, 63, 57, 58, 59, 60,
+	61, 42, 43, 45, 0, 44, 0, 0, 0, 0,
+	0, 200, 199,
 }
 
 var yyPact = [...]int16{
-	216, -1000, -1000, 216, -1000, 197, -1000, -16, 534, -1000,
-	84, -1000, -1000, -1000, -1000, -1000, 351, 351, -1000, -1000,
-	-46, -1000, 351, 351, -1000, -1000, -1000, 351, 331, 351,
-	262, 115, 7, 60, -1000, 351, 351, 39, 3, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 197, -1000, -1000, 262,
-	-1000, -1000, -1000, -1000, 351, 83, -1000, 351, 351, 351,
-	351, 351, 351, 351, 351, 351, 351, 351, 351, 351,
-	-1000, -1000, 534, -49, -1000, 351, 26, -1000, 4, 505,
-	156, 513, 481, 149, 118, 154, 148, 351, -1000, 351,
-	-1000, -1000, -1000, -1000, -23, 351, 351, -1000, -1000, 534,
-	-46, 37, 37, -1000, -1000, -1000, -3, -3, -3, 370,
-	4, -3, -3, -3, 288, -1000, 351, -1000, 262, 93,
-	351, -1000, -1000, 80, -1000, -28, -37, 22, 402, 351,
-	21, 442, -1000, -1000, 180, 56, 473, 262, 262, 166,
-	143, -1000, 140, 140, -1000, -1000, 20, -1000, 351, 100,
-	351, 89, -49, -1000, 69, -1000, -1000, 178, 127, -1000,
-	-1000, -40, 161, -1000, 57, -1000, 136, -41, -1000, 442,
-	98, 262, 434, -1000, -42, 262, -1000, -1000, 44, 140,
-	549, -1000, 44, 351, -1000, 197, 262, 262, -1000, 176,
-	-1000, -1000, -1000, -1000, 74, 72, 113, 377, 180, 155,
-	-1000, 113, -1000, -1000, 262, 107, 118, -1000, -1000, -1000,
-	262, 199, 118, 164, 94, -1000, 164, -1000, -1000, -1000,
+	219, -1000, -1000, 219, -1000, 203, -1000, -14, 621, -1000,
+	79, -1000, -1000, -1000, -1000, -1000, 413, 354, -1000, -1000,
+	-45, -1000, 354, 354, -1000, -1000, -1000, 354, 334, 354,
+	265, 120, -20, 91, -1000, 354, 354, 27, -21, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 203, -1000, -1000, 265,
+	-1000, -1000, -1000, -1000, 354, 51, -1000, 354, 354, 354,
+	354, 354, 354, 354, 354, 354, 354, 354, 354, 354,
+	-1000, -1000, 354, 621, -49, -1000, 354, 489, 7, 592,
+	155, 600, 568, 152, 118, 151, 142, 354, -1000, 354,
+	-1000, -1000, -1000, -1000, -35, 354, 354, -1000, -1000, 621,
+	-45, 10, 10, -1000, -1000, -1000, -1, -1, -1, 432,
+	7, -1, -1, -1, 385, 291, -1000, 265, 89, 354,
+	-1000, -1000, 80, -1000, -37, -38, 34, -1000, 464, 354,
+	31, 529, 354, -1000, -1000, 185, 82, 560, 265, 265,
+	160, 133, -1000, 106, 106, -1000, 354, -1000, 30, -1000,
+	354, 24, 104, 354, 86, -49, -1000, 62, -1000, -1000,
+	181, 105, -1000, -1000, -40, 154, -1000, 55, -1000, 130,
+	-41, -1000, -1000, 529, -1000, 97, 265, 521, -1000, -42,
+	265, -1000, -1000, 43, 106, 636, -1000, 43, 354, -1000,
+	203, 265, 265, -1000, 169, -1000, -1000, -1000, -1000, 72,
+	66, 113, 439, 185, 166, -1000, 113, -1000, -1000, 265,
+	110, 118, -1000, -1000, -1000, 265, 201, 118, 173, 96,
+	-1000, 173, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 225, 2, 66, 257, 256, 255, 9, 252, 251,
-	17, 12, 14, 247, 246, 10, 241, 238, 11, 15,
-	237, 20, 236, 0, 235, 13, 16, 7, 234, 8,
-	232, 87, 146, 231, 5, 230, 229, 3, 227, 218,
-	212, 214, 206, 199, 192, 186, 175,
+	0, 229, 3, 72, 260, 259, 258, 10, 255, 254,
+	19, 15, 13, 250, 249, 12, 244, 241, 16, 9,
+	240, 11, 239, 0, 238, 14, 17, 8, 237, 5,
+	235, 71, 164, 234, 6, 233, 232, 2, 222, 220,
+	183, 218, 211, 209, 202, 200, 167,
 }
 
 var yyR1 = [...]int8{
@@ -287,13 +297,13 @@ var yyR1 = [...]int8{
 	9, 9, 33, 33, 27, 27, 28, 28, 6, 7,
 	7, 8, 8, 26, 42, 4, 43, 4, 44, 4,
 	24, 24, 24, 24, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 3, 23, 23, 31, 31, 31,
-	31, 31, 22, 22, 46, 30, 11, 11, 11, 11,
+	3, 3, 3, 3, 3, 3, 23, 23, 31, 31,
+	31, 31, 31, 22, 22, 46, 30, 11, 11, 11,
 	11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
-	11, 11, 11, 11, 11, 21, 21, 10, 10, 14,
-	14, 14, 15, 15, 15, 15, 15, 15, 16, 16,
-	16, 19, 19, 20, 20, 18, 18, 17, 17, 25,
-	25, 25, 32, 29, 29, 34, 35, 37, 45,
+	11, 11, 11, 11, 11, 11, 21, 21, 10, 10,
+	14, 14, 14, 15, 15, 15, 15, 15, 15, 16,
+	16, 16, 19, 19, 20, 20, 18, 18, 17, 17,
+	25, 25, 25, 32, 29, 29, 34, 35, 37, 45,
 }
 
 var yyR2 = [...]int8{
@@ -302,13 +312,13 @@ var yyR2 = [...]int8{
 	0, 1, 1, 1, 0, 1, 3, 4, 7, 0,
 	5, 0, 2, 8, 0, 9, 0, 8, 0, 6,
 	1, 1, 3, 1, 3, 1, 1, 2, 1, 1,
-	1, 1, 1, 2, 2, 1, 3, 1, 4, 4,
-	2, 4, 1, 1, 0, 6, 1, 3, 3, 3,
+	1, 1, 1, 2, 6, 2, 1, 3, 1, 4,
+	4, 2, 4, 1, 1, 0, 6, 1, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-	3, 2, 1, 1, 1, 0, 1, 1, 3, 1,
-	2, 2, 1, 1, 1, 1, 1, 1, 1, 2,
-	2, 1, 3, 1, 2, 0, 1, 1, 3, 2,
-	5, 4, 1, 1, 3, 1, 1, 1, 1,
+	3, 3, 2, 1, 1, 1, 0, 1, 1, 3,
+	1, 2, 2, 1, 1, 1, 1, 1, 1, 1,
+	2, 2, 1, 3, 1, 2, 0, 1, 1, 3,
+	2, 5, 4, 1, 1, 3, 1, 1, 1, 1,
 }
 
 var yyChk = [...]int16{
@@ -319,46 +329,48 @@ var yyChk = [...]int16{
 	33, 32, 45, 46, 49, 47, -2, -40, -1, -33,
 	-34, -35, 5, 4, 40, -45, 67, 55, 56, 57,
 	58, 59, 53, 54, 40, 43, 44, 39, 41, 42,
-	-32, -21, -11, -23, -21, 65, -10, -21, -11, -11,
+	-32, -21, 62, -11, -23, -21, 65, -11, -11, -11,
 	18, -11, -11, -2, 10, 35, 9, 62, -22, 62,
 	33, 8, -11, -11, 8, 62, 62, -9, -3, -11,
 	-31, -11, -11, -11, -11, -11, -11, -11, -11, -11,
-	-11, -11, -11, -11, -11, 63, -37, 6, 13, 8,
-	20, 21, 30, -29, 8, 8, 8, -10, -11, 62,
-	-10, -11, 66, -21, -2, 19, -11, -44, -46, -12,
-	-37, 48, 62, 62, 63, 63, -10, 63, -37, -7,
-	14, -24, -23, -25, 62, -26, 21, -2, -2, -34,
-	8, -18, -17, -19, -20, 8, 25, -18, 63, -11,
-	-8, 15, -11, 21, -25, -43, 22, 31, 63, -37,
-	40, 8, 63, -37, 16, -2, 13, -42, 63, -2,
-	-12, -19, -16, -15, 56, 55, -12, -11, -2, -2,
-	22, -41, 32, 32, -27, -28, 10, 63, -7, 22,
-	-27, -2, 10, -29, -2, 11, -29, -34, 36, -34,
+	-11, -11, -11, -11, -11, -11, 63, 13, 8, 20,
+	21, 30, -29, 8, 8, 8, -10, -21, -11, 62,
+	-10, -11, -37, 6, 66, -2, 19, -11, -44, -46,
+	-12, -37, 48, 62, 62, 63, -37, 63, -10, 63,
+	-37, -10, -7, 14, -24, -23, -25, 62, -26, 21,
+	-2, -2, -34, 8, -18, -17, -19, -20, 8, 25,
+	-18, -21, 63, -11, 63, -8, 15, -11, 21, -25,
+	-43, 22, 31, 63, -37, 40, 8, 63, -37, 16,
+	-2, 13, -42, 63, -2, -12, -19, -16, -15, 56,
+	55, -12, -11, -2, -2, 22, -41, 32, 32, -27,
+	-28, 10, 63, -7, 22, -27, -2, 10, -29, -2,
+	11, -29, -34, 36, -34,
 }
 
 var yyDef = [...]int8{
-	-2, -2, -2, -2, 18, 0, 4, 84, 45, 46,
-	0, 48, 49, 50, 51, 52, 85, 85, 6, 7,
-	55, 66, 85, 0, 82, 83, 112, 0, 0, 0,
-	16, 0, 57, 0, 89, 0, 0, 0, 0, 9,
-	92, 93, 94, 95, 96, 97, 3, 5, 17, 20,
-	22, 23, 115, 116, 0, 0, 118, 0, 0, 0,
+	-2, -2, -2, -2, 18, 0, 4, 85, 45, 46,
+	0, 48, 49, 50, 51, 52, 86, 86, 6, 7,
+	56, 67, 0, 0, 83, 84, 113, 0, 0, 0,
+	16, 0, 58, 0, 90, 0, 0, 0, 0, 9,
+	93, 94, 95, 96, 97, 98, 3, 5, 17, 20,
+	22, 23, 116, 117, 0, 0, 119, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	47, 53, 86, 84, 54, 0, 0, 87, 81, 0,
-	0, 0, 0, 0, 0, 0, 0, 85, 60, 0,
-	62, 63, 90, 91, 109, 85, 0, 19, 21, 44,
-	56, 68, 69, 70, 71, 72, 73, 74, 75, 76,
-	77, 78, 79, 80, 0, 67, 85, 117, 16, 0,
-	0, 38, 64, 10, 113, 0, 0, 0, 0, 85,
-	0, 0, 59, 88, 29, 0, 0, 16, 16, 0,
-	0, 11, 105, 105, 58, 61, 0, 111, 0, 31,
-	0, 0, 40, 41, 0, 43, 36, 0, 0, 12,
-	114, 0, 106, 107, 101, 103, 0, 0, 110, 0,
-	0, 16, 0, 34, 0, 16, 39, 65, 10, 0,
-	0, 104, 10, 0, 28, 32, 16, 16, 42, 0,
-	13, 108, 102, 98, 0, 0, 24, 0, 29, 0,
-	37, 24, 99, 100, 16, 25, 0, 33, 30, 35,
-	16, 0, 0, 0, 0, 15, 0, 26, 14, 27,
+	47, 53, 0, 87, 85, 55, 0, 0, 82, 0,
+	0, 0, 0, 0, 0, 0, 0, 86, 61, 0,
+	63, 64, 91, 92, 110, 86, 0, 19, 21, 44,
+	57, 69, 70, 71, 72, 73, 74, 75, 76, 77,
+	78, 79, 80, 81, 0, 0, 68, 16, 0, 0,
+	38, 65, 10, 114, 0, 0, 0, 88, 0, 86,
+	0, 0, 86, 118, 60, 29, 0, 0, 16, 16,
+	0, 0, 11, 106, 106, 59, 86, 62, 0, 112,
+	0, 0, 31, 0, 0, 40, 41, 0, 43, 36,
+	0, 0, 12, 115, 0, 107, 108, 102, 104, 0,
+	0, 89, 111, 0, 54, 0, 16, 0, 34, 0,
+	16, 39, 66, 10, 0, 0, 105, 10, 0, 28,
+	32, 16, 16, 42, 0, 13, 109, 103, 99, 0,
+	0, 24, 0, 29, 0, 37, 24, 100, 101, 16,
+	25, 0, 33, 30, 35, 16, 0, 0, 0, 0,
+	15, 0, 26, 14, 27,
 }
 
 var yyTok1 = [...]int8{
@@ -1099,180 +1111,180 @@ yydefault:
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 54:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-6 : yypt+1]
 //line .\grammar.y:282
+		{
+			yyVAL.stmt = ThrowStatement{Param: ExprStatements{Statements: append(Statements{yyDollar[3].stmt}, yyDollar[5].exprs.Statements...)}}
+		}
+	case 55:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line .\grammar.y:283
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
-	case 55:
+	case 56:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
-	case 56:
+	case 57:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
-	case 57:
+	case 58:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:294
+//line .\grammar.y:295
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
-	case 58:
+	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:296
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
-	case 59:
+	case 60:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:296
+//line .\grammar.y:297
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
-	case 60:
+	case 61:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:297
+//line .\grammar.y:298
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
-	case 61:
+	case 62:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:298
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
-	case 62:
+	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
-	case 63:
+	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
-	case 64:
+	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:306
 		{
 			setTryFlag(true, yylex)
 		}
-	case 65:
+	case 66:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
-	case 66:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:311
-		{
-			yyVAL.stmt = yyDollar[1].stmt
-		}
 	case 67:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:312
 		{
-			yyVAL.stmt = yyDollar[2].exprs
+			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:313
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = ExprStatements{Statements: Statements{yyDollar[2].stmt}}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:314
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:315
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:316
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:317
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:318
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:319
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:320
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:321
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:322
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:323
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:324
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 80:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:325
 		{
-			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
+			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 81:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:326
 		{
-			yyVAL.stmt = not(yyDollar[2].stmt)
+			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 82:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line .\grammar.y:327
 		{
-			yyVAL.stmt = yyDollar[1].stmt
+			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1283,6 +1295,12 @@ yydefault:
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:329
+		{
+			yyVAL.stmt = yyDollar[1].stmt
+		}
+	case 85:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:330
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1290,53 +1308,47 @@ yydefault:
 				yyVAL.stmt = yyDollar[1].stmt
 			}
 		}
-	case 85:
+	case 86:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = nil
 		}
-	case 86:
+	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
-	case 87:
+	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:341
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
-	case 88:
+	case 89:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:342
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
-	case 89:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:344
-		{
-			yyVAL.stmt = yyDollar[1].stmt
-		}
 	case 90:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:345
 		{
-			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
+			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line .\grammar.y:346
 		{
-			yyVAL.stmt = yyDollar[2].stmt
+			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 92:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:349
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line .\grammar.y:347
 		{
-			yyVAL.stmt = yyDollar[1].token.value
+			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1366,116 +1378,116 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:354
 		{
-			yyVAL.stmt = UndefinedStatement{}
+			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 98:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:358
+//line .\grammar.y:355
 		{
-			yyVAL.stmt = yyDollar[1].stmt
+			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 99:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:359
 		{
-			yyVAL.stmt = unaryMinus(yyDollar[2].token.value)
+			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 100:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line .\grammar.y:360
 		{
-			yyVAL.stmt = yyDollar[2].token.value
+			yyVAL.stmt = unaryMinus(yyDollar[2].token.value)
 		}
 	case 101:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line .\grammar.y:361
+		{
+			yyVAL.stmt = yyDollar[2].token.value
+		}
+	case 102:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:365
 		{
 			yyVAL.declarations_method_param = yyDollar[1].declarations_method_param
 		}
-	case 102:
+	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:365
+//line .\grammar.y:366
 		{
 			yyVAL.declarations_method_param = *(yyDollar[1].declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
-	case 103:
+	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:368
+//line .\grammar.y:369
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
-	case 104:
+	case 105:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:369
+//line .\grammar.y:370
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
-	case 105:
+	case 106:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:373
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
-	case 106:
+	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:373
+//line .\grammar.y:374
 		{
 			yyVAL.declarations_method_params = yyDollar[1].declarations_method_params
 		}
-	case 107:
+	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:377
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
-	case 108:
+	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:378
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
-	case 109:
+	case 110:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:385
+//line .\grammar.y:386
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
-	case 110:
+	case 111:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:386
+//line .\grammar.y:387
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
-	case 111:
+	case 112:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:387
+//line .\grammar.y:388
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
-	case 112:
+	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:392
+//line .\grammar.y:393
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
-	case 113:
+	case 114:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:394
+//line .\grammar.y:395
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
-	case 114:
+	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:395
+//line .\grammar.y:396
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
-	case 115:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:398
-		{
-			yyVAL.token = yyDollar[1].token
-		}
 	case 116:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line .\grammar.y:399
@@ -1488,6 +1500,12 @@ yydefault:
 		{
 			yyVAL.token = yyDollar[1].token
 		}
+	case 118:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line .\grammar.y:401
+		{
+			yyVAL.token = yyDollar[1].token
+		}
 	}
 	goto yystack /* stack new state and value */
 }
-- 
2.43.0


From b629b5c60f47c28ad3d9f589deae3039e57c94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 26/29] =?UTF-8?q?fix:=20unary=20minus=20and=20=D0=9D=D0=95?=
 =?UTF-8?q?=20before=20literals,=20=D0=9D=D0=BE=D0=B2=D1=8B=D0=B9=20and=20?=
 =?UTF-8?q?=D0=9D=D0=95=20were=20lost=20or=20applied=20to=20another=20oper?=
 =?UTF-8?q?and?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

-"5", Не 1 and -Новый А lost the sign; -Не а became Не -а.
---
 ast/ast.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index ab8450d..6410eda 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -183,9 +183,13 @@ func unaryMinus(iv interface{}) interface{} {
 	case float64:
 		return -v
 	case IUnary:
+		// минус перед НЕ относится к результату отрицания: -(Не а)
+		if f, ok := v.(interface{ prefix() string }); ok && strings.HasPrefix(f.prefix(), "Не ") {
+			return ExprStatements{Statements: Statements{v}}.UnaryMinus()
+		}
 		return v.UnaryMinus()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.UnaryMinus()
 	}
 }
 
@@ -196,6 +200,6 @@ func not(iv interface{}) interface{} {
 	case INot:
 		return v.Not()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.Not()
 	}
 }
-- 
2.43.0


From f7839d69534292cb5283103ce579324ddbca408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 27/29] fix: a label without a name was accepted

---
 ast/tokens.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 1e151ec..36f679a 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -225,7 +225,12 @@ func (t *Token) next() (int, string, error) {
 		}
 	case let == '~':
 		t.nextPos()
-		return GoToLabel, t.scanIdentifier(), nil
+		literal := t.scanIdentifier()
+		if literal == emptyLit {
+			return int(let), string(let), fmt.Errorf(`syntax error %q`, string(let))
+		}
+
+		return GoToLabel, literal, nil
 	default:
 		switch let {
 		case EOF:
-- 
2.43.0


From 0d54c1ca45460d2d62d891988bea5f9594432e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 28/29] fix: print the sign of a statement that is a chain
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A statement such as -А.Б() lost its sign when printed.
---
 ast/ast_print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 2f53949..848dcd5 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -251,6 +251,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ContinueStatement:
 		builder.WriteString("Продолжить;")
 	case CallChainStatement:
+		builder.WriteString(v.prefix())
 		builder.WriteString(p.printCallChainStatement(v))
 		builder.WriteString(";")
 	case TryStatement:
-- 
2.43.0


From 7b472e805d79116a5fffc0a1057ef3d351eaca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:27 +0000
Subject: [PATCH 29/29] fix: a second variable list after a repeated name made
 Parse panic

---
 ast/ast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index 6410eda..168f9e0 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -148,6 +148,10 @@ func createFunctionOrProcedure(Type StatementType, directive Statement, name str
 }
 
 func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token) (map[string]VarStatement, error) {
+	if existingVariables == nil { // предыдущее объявление было с ошибкой
+		existingVariables = map[string]VarStatement{}
+	}
+
 	for _, v := range newVariables {
 		if hasName(existingVariables, v.literal) {
 			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)
-- 
2.43.0

