From df92b108aa14825afb20a3a0a87d63b7920e1d81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 001/143] fix: FOR /F tokens=n no longer merges token numbers
 into the preset default

The token table is initialised with token 1; the option parser or-ed the
requested numbers into it, so that tokens=2 selected the third token.
---
 pbat/command/pBat_For.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..8fb45d6 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -859,7 +859,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 last = start;
@@ -882,7 +882,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         goto infos_overflow;
 
                     /* write a cat token to infos */
-                    infos->lpToken[i]|=TOHIGH(start)+TOLOW(end);
+                    infos->lpToken[i]=TOHIGH(start)+TOLOW(end);
                     i++;
 
                 } else {
@@ -895,7 +895,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         if (i >= TOKENINFO_NB_MAX )
                             goto infos_overflow;
 
-                        infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                        infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                         i++;
 
                         start ++;
@@ -963,7 +963,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 start ++;
-- 
2.43.0


From 8ab180c3576e00f9b4d248433ed6f6a5d9f65516 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 002/143] fix: IF ERRORLEVEL compares with the current error
 level

It compared the operand with an environment variable that does not exist
and dereferenced a null pointer.
---
 pbat/command/pBat_If.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..942e105 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,7 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+    ret = (iErrorLevel >= strtol(val, NULL, 10));
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From eb7cefcaeb468b82acef3a2529d44571958160d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 003/143] fix: IF NOT negates EQU-like comparisons and
 bracketed expressions

The negation was silently ignored for both.
---
 pbat/command/pBat_If.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..1c4cd45 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -223,6 +223,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
             }
 
+            if (iFlag & PBAT_IF_NEGATION)
+                iResult=!iResult;
+
 		 } else if (lpNext) {
 
 			if ((lpToken=strstr(pBat_EsToChar(lpComparison), "=="))) {
@@ -299,6 +302,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
                 }
 
+                if (iFlag & PBAT_IF_NEGATION)
+                    iResult=!iResult;
 
 			}
 		} else {
-- 
2.43.0


From fe013b9f373ad2714e5aeea7fda78266f3204c9c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 004/143] fix: IF no longer takes an empty string for the
 number 0

---
 pbat/command/pBat_If.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 1c4cd45..0551940 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -449,6 +449,10 @@ int pBat_GetCmpValue(const char* number, double* value)
     char* end;
     int f=0;
 
+    /* an empty string is not a number */
+    if (*pBat_SkipBlanks((char*)number) == '\0')
+        return -1;
+
     while (1) {
 
         if (f == 0)
-- 
2.43.0


From 5df36b7cfbb25a56af95d3b33d8b1bf267fe0eb3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 005/143] fix: IF string1==string2 compares strings, as
 documented

It compared numbers when both sides look like numbers: 1==01 was true.
---
 pbat/command/pBat_If.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 0551940..0443393 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -501,6 +501,11 @@ int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1,
 
     char* lpEnd;
 
+    /* '==' only compares strings */
+    if (!strcmp(lpCmp, "=="))
+        return (iFlag & PBAT_IF_CASE_UNSENSITIVE) ?
+                    !stricmp(lpParam1, lpParam2) : !strcmp(lpParam1, lpParam2);
+
     /* Get the value of the left and right hand side of the
        comparison */
     if (pBat_GetCmpValue(lpParam1, &rhs)
@@ -519,8 +524,7 @@ int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1,
 
     }
 
-    if (!stricmp(lpCmp, "EQU")
-        || !stricmp(lpCmp, "==")) {
+    if (!stricmp(lpCmp, "EQU")) {
 
         if (comp_type & CMP_FLOAT_COMP) {
             x1 = frexp(rhs, &iExp1);
-- 
2.43.0


From 48a80639f5c354c9db70876a23683ff4ee099323 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 006/143] fix: in IF expressions 'and' takes precedence over
 'or'

The expression was cut at 'and' first, and the short-circuit test read an
uninitialised result.
---
 pbat/command/pBat_IfExp.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..ce6efd0 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,12 +134,17 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND) {
+
         if (!res1)
             return 0;
-    else if (res2)
+
+    } else if (res1) {
+
         return 1;
 
+    }
+
     if (exp->child2.type == IFEXP_NODE_OPS) {
 
         res2 = pBat_IfExp_ExecuteTest(exp->child2.child.ops, flags);
@@ -237,23 +242,23 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (!(exp = malloc(sizeof(ifexp_t))))
         return NULL;
 
-    if (pBat_IfExp_Cut("AND", &line, &rhs)) {
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_AND;
+        exp->type = IFEXP_OR;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
 
 
-    } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_OR;
+        exp->type = IFEXP_AND;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
-- 
2.43.0


From 29b3c86e5c603e517ee85ecea72277c3d93660f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 007/143] fix: malformed IF expressions are rejected without
 using freed memory

Unbalanced brackets and misplaced operators led to reads of freed elements.
---
 pbat/command/pBat_IfExp.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index ce6efd0..fceb9d0 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -177,6 +177,9 @@ int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags)
 
     FILELIST* files;
 
+    if (test == NULL)
+        return -1;
+
     if (!stricmp(test->op->str, "NOT")) {
 
         neg = 1;
@@ -281,15 +284,14 @@ error:
 void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
 {
 
-    pBat_IfExp_SuppressBrackets(&line);
-
     if ((child->child.exp = pBat_IfExp_Parse(line))) {
 
         child->type = IFEXP_NODE_EXP;
 
     } else {
 
-        child->child.ops = line;
+        /* the expression is not valid */
+        child->child.ops = NULL;
         child->type = IFEXP_NODE_OPS;
 
     }
@@ -339,6 +341,10 @@ int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line)
     }
 
 
+    /* the brackets are not balanced */
+    if (count != 0)
+        return 0;
+
     /* free the last bracket */
     prev->next = NULL;
     pBat_EsFree_Cached(ops->op);
@@ -366,6 +372,8 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
         pBat_EsFree_Cached(line->op);
         free (line);
 
+        return 1;
+
     }
 
     if (EQUCHR(line->op->str, '['))
-- 
2.43.0


From f617424c2fe2146934ce9795e0d681f3591a95f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 008/143] fix: variable truncation stops at the end of the
 string

%v:~8,5% of a 10 character value was empty instead of its last two
characters, and %v:~0,0% was the whole string.
---
 pbat/core/pBat_Var.c | 68 ++++++++++++--------------------------------
 1 file changed, 18 insertions(+), 50 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..67b1914 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -230,21 +230,9 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
         iTotalLen=strlen(lpVarContent);
 #endif // PBAT_USE_LIBCU8
 
-		if (iBegin < 0) {
-
-            if (iLen > 0) {
-
-                if ( (iTotalLen+iBegin) >= iLen)
-                    iBegin = iTotalLen + iBegin;
-
-            } else {
-
-                if ( iBegin <= iLen )
-                    iBegin = iTotalLen + iBegin;
-
-            }
-
-        }
+		/* a negative position counts from the end of the string */
+		if (iBegin < 0)
+			iBegin += iTotalLen;
 
         if (iBegin < 0 || iBegin > iTotalLen) {
 
@@ -255,48 +243,28 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
 			    lpVarContent = "";
 
-		} else if (iLen > 0) {
-
-			if ((iBegin+iLen)<= iTotalLen) {
-				/* if the strings is right */
-
-#ifdef PBAT_USE_LIBCU8
-                lpZeroPos = pBat_SkipU8Chars(lpVarContent, iBegin+iLen);
-                lpVarContent = pBat_SkipU8Chars(lpVarContent, iBegin);
-#else
-                lpZeroPos=lpVarContent+iBegin+iLen;
-                lpVarContent+=iBegin;
-#endif /* PBAT_USE_LIBCU8 */
-				cCharSave=*lpZeroPos;
-				*lpZeroPos='\0';
-
-			} else
-                lpVarContent = "";
-
+		} else {
 
-		} else if (iLen <= 0) {
+			/* a negative length counts from the end of the string; a length
+			   past the end of the string stops at its end */
+			if (iLen < 0)
+				iLen += iTotalLen - iBegin;
 
-			if (abs(iLen) <= iTotalLen-iBegin) {
+			if (lpNextToken == NULL || iLen > iTotalLen - iBegin)
+				iLen = iTotalLen - iBegin;
 
-				/* if the string is right too
-				   but the lenght given is negative, such as -3
-				   (ie. truncate 3 characters before the end of
-				   the string)
-				*/
+			if (iLen < 0)
+				iLen = 0;
 
 #ifdef PBAT_USE_LIBCU8
-                lpZeroPos=pBat_SkipU8Chars(lpVarContent, iTotalLen+iLen);
-                lpVarContent =pBat_SkipU8Chars(lpVarContent, iBegin);
+			lpVarContent = pBat_SkipU8Chars(lpVarContent, iBegin);
+			lpZeroPos = pBat_SkipU8Chars(lpVarContent, iLen);
 #else
-				lpZeroPos = lpVarContent+iTotalLen+iLen;
-				lpVarContent+=iBegin;
+			lpVarContent += iBegin;
+			lpZeroPos = lpVarContent + iLen;
 #endif /* PBAT_USE_LIBCU8 */
-				cCharSave=*lpZeroPos;
-				*lpZeroPos='\0';
-
-
-			} else
-                lpVarContent = "";
+			cCharSave=*lpZeroPos;
+			*lpZeroPos='\0';
 
 		}
 	}
-- 
2.43.0


From b844ba623dd5c4f02d78dc260eda9e2b63058588 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 009/143] fix: replacing an empty string in a variable no
 longer loops forever

---
 libpbat/estr/pBat_Estr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c649590..1e95206 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -415,7 +415,13 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    /* there is no occurence of an empty pattern to replace */
+    if (iLength == 0)
+        return 0;
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=strstr(lpBuffer, ptrPattern))) {
 
-- 
2.43.0


From 13ae19e88a5f8374b52c78f96a662fdd3dcdb6ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 010/143] fix: ENDLOCAL restores the options changed by
 SETLOCAL

SETLOCAL saved them after it had changed them.
---
 pbat/command/pBat_Setlocal.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..461fae3 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -60,7 +60,9 @@ int pBat_CmdSetLocal(char* lpLine)
 	char lpName[FILENAME_MAX];
 	char* lpNext=lpLine+8;
 	int push = 1,
-        status = PBAT_NO_ERROR;
+        status = PBAT_NO_ERROR,
+        bDelayed = bDelayedExpansion,
+        bCorrect = bCmdlyCorrect;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
 
@@ -124,9 +126,16 @@ int pBat_CmdSetLocal(char* lpLine)
 
 	}
 
-	if (push)
+	if (push) {
+
         pBat_PushEnvStack();
 
+        /* ENDLOCAL restores the options as they were before this command */
+        lpesEnv->bDelayedExpansion = bDelayed;
+        lpesEnv->bCmdlyCorrect = bCorrect;
+
+	}
+
 	return iErrorLevel;
 }
 
-- 
2.43.0


From 0bddaa1816f243427eefaad338f06b8239bda70f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 011/143] fix: SETLOCAL accepts DISABLEEXTENSIONS

---
 pbat/command/pBat_Setlocal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 461fae3..dd258cc 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -106,7 +106,7 @@ int pBat_CmdSetLocal(char* lpLine)
             return PBAT_UNABLE_SET_OPTION;
 #endif
 		}  else if (!stricmp(lpName, "ENABLEEXTENSIONS")
-             || !stricmp(lpName, "DISABLEEXTENSION")) {
+             || !stricmp(lpName, "DISABLEEXTENSIONS")) {
 
 			/* provided for backward compatibility. The ENABLEEXTENSIONS
 			   option was used to block some NT features to make scripts portables
-- 
2.43.0


From dba0f972fe73ebe4c8c976111b82afe9953c00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 012/143] fix: EXIT code returns the given exit code

It parsed the text after the code, hence always returned 0.
---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index cccd839..a80ff71 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -91,7 +91,7 @@ int pBat_CmdExit(char* lpLine)
 
 		} else {
 
-			ret = atoi(ntoken);
+			ret = atoi(param->str);
 
 		}
 	}
-- 
2.43.0


From ac99f4ff014d9f31d86a9894a11e9b7002ab04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 013/143] fix: SET /A gives each bitwise and logical operator
 its documented precedence

---
 libfasteval/lib/parser.y | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 3e1e63e..2823814 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -104,8 +104,11 @@ extern void input_reset (void);
 /* Grammar terminal symbols.  */
 %token <number> NUMBER CONSTANT
 %token <name> FUNCTION VARIABLE
-%left '|' 'o' '^'
-%left '&' 'a'
+%left 'o'
+%left 'a'
+%left '|'
+%left '^'
+%left '&'
 %left '>' '<'
 %left '-' '+'
 %left '*' '/' '%'
-- 
2.43.0


From 5779b73286283dc68179714aaada21d8726766cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 014/143] fix: SET /A knows the documented ! operator

---
 libfasteval/lib/scanner.l | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index 87e4b08..d20cbaa 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -74,8 +74,8 @@ integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
 function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
-nodelim	   [^+\-*%/&>~<%\|=()^\n\t ]
-nodelimnb  [^+\-*%/&>~<%\|=()^\n\t 0-9]
+nodelim	   [^+\-*%/&>~!<%\|=()^\n\t ]
+nodelimnb  [^+\-*%/&>~!<%\|=()^\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
 %%
 
@@ -115,6 +115,10 @@ identifier {nodelim}*{nodelimnb}*{nodelim}*
 		return '~';
 }
 
+"!" {
+  return '!';
+}
+
 ">>" {
   return '>';
 }
-- 
2.43.0


From 4539601dc256cc60183c62f2a46c3696177c4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 015/143] fix: SET /A does not crash on a division by 0

Integer divisions by 0 (or which overflow) raised SIGFPE.
---
 libfasteval/lib/parser.y | 17 +++++++++++++++--
 pbat/command/pBat_Set.c  | 11 +++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 2823814..f283eb3 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -42,6 +42,7 @@
 
 #include <stdlib.h>
 #include <math.h>
+#include <limits.h>
 
 #include "fasteval.h"
 
@@ -72,6 +73,11 @@ extern void input_reset (void);
 /* Consider x as an integer */
 #define AS_INTEGER(x) ((x).is_double ? (long long)(x).d : (x).i)
 
+/* Integer division is not defined by 0, or if its result overflows */
+#define ILLEGAL_DIVISION(a, b) \
+    (!(a).is_double && !(b).is_double \
+      && ((b).i == 0 || ((b).i == -1 && (a).i == LLONG_MIN)))
+
 /* Define a binary operation where :
   - if a and b are integer : result = a 'op' b as integer
   - otherwise : result = a 'op' b as double
@@ -143,12 +149,19 @@ expression
   INT_FLOAT_OP(*, $$, $1, $3);
 }
 | expression '/' expression {
-  INT_FLOAT_OP(/, $$, $1, $3);
+
+  /* an illegal integer division gives a special floating point number */
+  if (ILLEGAL_DIVISION($1, $3)) {
+    $$.is_double = 1;
+    $$.d = AS_DOUBLE($1) / AS_DOUBLE($3);
+  } else {
+    INT_FLOAT_OP(/, $$, $1, $3);
+  }
 }
 | expression '%' expression {
 
   /* modulo may use integer operator % or fmod function */
-  $$.is_double  = $1.is_double || $3.is_double;
+  $$.is_double  = $1.is_double || $3.is_double || ILLEGAL_DIVISION($1, $3);
   if (!($$.is_double))
     $$.i = $1.i % $3.i;
   $$.d = fmod($1.d, $3.d);
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..0098244 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -431,12 +431,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 #define OPERATE_INT(op1, op, op2) \
     (double)(((int)op1) op ((int)(op2)))
 
-#define OPERATE(op1, op, op2, mode) \
-    ((!mode) ? \
-        (OPERATE_INT(op1, op, op2)) \
-        : \
-        (op1 op op2))
-
 
 	switch (cLeftAssign) {
 
@@ -458,8 +452,9 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 					break;
 
 				case '/':
-					dVal = OPERATE(dVal, /,
-                                    dResult, fmode);
+					/* dividing integers by 0 gives inf or nan, as in expressions */
+					dVal = fmode ? dVal / dResult
+                                 : trunc(trunc(dVal) / trunc(dResult));
 					break;
 
                 case '%':
-- 
2.43.0


From cc16087f396e41e01503fd6c45a22b1c31612c64 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 016/143] fix: SET /A var&&=value and var||=value use the value
 of the variable

The variable was looked up under a name with the operator's first sign.
---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 0098244..43b6999 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -486,9 +486,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			*(lpEqual-1)='\0';
 
-			pBat_AdjustVarName(lpVarName);
-			dVal=_pBat_SetGetVar(lpVarName);
-
 			if (lpVarName != (lpEqual-1)) {
 
 				if (*(lpEqual-2) == cLeftAssign) {
@@ -500,6 +497,9 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			}
 
+			pBat_AdjustVarName(lpVarName);
+			dVal=_pBat_SetGetVar(lpVarName);
+
 			switch (cLeftAssign) {
 
 				case '|':
-- 
2.43.0


From 93822ab79eaff063727941acec345eefd0dc6842 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 017/143] fix: SET /A knows the assignments var<<=value and
 var>>=value

---
 pbat/command/pBat_Set.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 43b6999..104c50f 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -480,6 +480,8 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 		case '&':
 		case '|':
+		case '<':
+		case '>':
 
 			/* more complicated, it need to be
 			   resolved */
@@ -515,6 +517,24 @@ int pBat_CmdSetEval(ESTR* lpExpression)
                         dVal = OPERATE_INT(dVal, &&, dResult);
                     else
                         dVal = OPERATE_INT(dVal, &, dResult);
+
+					break;
+
+				case '<':
+				case '>':
+					/* only << and >> are operators */
+					if (!bDouble) {
+
+						pBat_ShowErrorMessage(PBAT_INVALID_EXPRESSION, lpVarName, FALSE);
+						status = PBAT_INVALID_EXPRESSION;
+						goto error;
+
+					}
+
+					if (cLeftAssign == '<')
+                        dVal = OPERATE_INT(dVal, <<, dResult);
+                    else
+                        dVal = OPERATE_INT(dVal, >>, dResult);
 			}
 
 			break;
-- 
2.43.0


From 3a60211fe7e6c6f3223c3657b0dd0dca687de897 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 018/143] fix: a trailing * also matches an empty string

a* did not match the file a, nor *a* the file xa.
---
 libpbat/dir/pBat_Dir.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 4b95267..ca9c2de 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -697,6 +697,10 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
 
     }
 
+    /* a joker also matches the empty string */
+    while (*regexp == '*')
+        regexp ++;
+
     if (*match || *regexp)
         return 0;
 
@@ -816,6 +820,10 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
     }
 
+    /* a joker also matches the empty string */
+    while (*regexp == '*')
+        regexp ++;
+
     if (*match || *regexp)
         return 0;
 
-- 
2.43.0


From c692c7b513b20c8d864c33da741dc124f9999702 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 019/143] fix: attributes -I and -S select files without the
 attribute

Their negation tested the flag of -H.
---
 libpbat/dir/pBat_Attr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Attr.c b/libpbat/dir/pBat_Attr.c
index 237d15e..89174c7 100644
--- a/libpbat/dir/pBat_Attr.c
+++ b/libpbat/dir/pBat_Attr.c
@@ -85,13 +85,13 @@ int pBat_CheckFileAttributes(short wAttr, const FILELIST* lpflList)
 
     if (wAttr & PBAT_CMD_ATTR_SYSTEM) {
         iResult=iAttributes & PBAT_FILE_SYSTEM;
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_SYSTEM_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
     if (wAttr & PBAT_CMD_ATTR_VOID) {
         iResult=(pBat_GetFileSize(lpflList)==0);
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_VOID_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
-- 
2.43.0


From f92df7987ac52198247ef78dd11790e9a42f6f0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 020/143] fix: TYPE displays every file of its arguments

Files were dropped when there were more than two arguments, or when an
argument matched several files.
---
 pbat/command/pBat_Type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 87af0ff..22417dc 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -146,6 +146,9 @@ int pBat_CmdType(char* lpLine)
             else
                 pEnd->lpflNext = pTmp; /* catenate the lists */
 
+            while (pEnd->lpflNext != NULL)
+                pEnd = pEnd->lpflNext;
+
         }
 
     }
-- 
2.43.0


From 68dffb5f1c7c20c78462f6f04a66f1d3bb407205 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 021/143] fix: TYPE sends file names to the standard error, as
 documented

---
 pbat/command/pBat_Type.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 22417dc..c733308 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -198,7 +198,9 @@ int pBat_CmdType(char* lpLine)
 
             while (pTmp) {
 
-                fprintf(fOutput, "---------- %s" PBAT_NL , pTmp->lpFileName);
+                /* names do not belong to the output, keep the order though */
+                fflush(fOutput);
+                fprintf(fError, "---------- %s" PBAT_NL , pTmp->lpFileName);
                 status |= pBat_TypeFile(pTmp->lpFileName);
 
                 pTmp = pTmp->lpflNext;
-- 
2.43.0


From 0c7e20311ebf1c87eb996c0ec78f9005f2f27891 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 022/143] fix: WC without switch counts the bytes of its
 standard input

It printed an empty line.
---
 pbat/command/pBat_Wc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8c882cd..943ff0c 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -293,6 +293,10 @@ int pBat_CmdWc(char* line)
         }
     }
 
+    /* Count bytes by default */
+    if (mode == 0)
+        mode = PBAT_WC_BYTES;
+
     /* Display no error about file given ... */
     if (match == NULL) {
         /* Something to do with stdin */
@@ -300,10 +304,6 @@ int pBat_CmdWc(char* line)
         pBat_PrintCounts(mode, &cnt, NULL);
     }
 
-    /* Count bytes by default */
-    if (mode == 0)
-        mode = PBAT_WC_BYTES;
-
     /* Perform count on files */
     item = match;
     while (item) {
-- 
2.43.0


From 63bd5b08375c2774eb7e7d6ee55ad134db49f1dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 023/143] fix: WC counts a word that ends with the file

---
 pbat/command/pBat_Wc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 943ff0c..a33ff29 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -145,6 +145,10 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     }
 
+    /* the last word may end with the file */
+    if (inword)
+        cnt->words ++;
+
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
     if (fd != fileno(fInput)) {
-- 
2.43.0


From 8751a5cbca22887c262d4932e0c0f80af857b734 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 024/143] fix: FIND ignores directories

The attribute mask it used selected everything.
---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..16d9671 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -285,7 +285,7 @@ int pBat_CmdFind(char* lpLine)
     }
 
     /* split directories from input */
-    pBat_AttributesSplitFileList(PBAT_CMD_ATTR_DIR_N,
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     pBegin,
                                     &pBegin,
                                     &pTmp
-- 
2.43.0


From fba29037ffc7023cd5f8bb3d3f7e616090068df4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 025/143] fix: FIND does not close a file it could not open

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index 16d9671..832e8d9 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -150,7 +150,7 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
 
 end:
     pBat_EsFree_Cached(lpEsLine);
-    if (name)
+    if (name && pFile)
         fclose(pFile); /* do no close stdin, please */
     else if (isatty(fileno(fInput)))
         clearerr(fInput);
-- 
2.43.0


From 11e8fc2214c80e73d3d08991ea73761ef39128d0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 026/143] fix: questions to the user end when their input does,
 and answers are not taken from uninitialised memory

---
 pbat/command/pBat_Ask.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..006e22e 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -40,7 +40,7 @@
 /* A function to override the hook that libcu8 adds on read()
    that automatically enable autocompletion, which can get
    quite problematic when asking question to the user */
-void xread(int fd, void* p, size_t sz)
+int xread(int fd, void* p, size_t sz)
 {
     size_t cnt;
 
@@ -50,6 +50,8 @@ void xread(int fd, void* p, size_t sz)
 
     } while (!cnt);
 
+    return cnt;
+
 }
 #else
 #define xread(fd, p, n) read(fd, p, n)
@@ -63,7 +65,17 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 
     while (1) {
 
-        xread(fileno(fInput), &c, 1);
+        if (xread(fileno(fInput), &c, 1) <= 0) {
+
+            /* nobody is left to answer, thus never suppose a consent */
+            if (i == 0) {
+                snprintf(buffer, size, "%s", lpAskNo);
+                return;
+            }
+
+            break;
+
+        }
 
         if (c == '\r')
             continue;
@@ -151,6 +163,8 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 
 	do {
 
+		iRet = 0;
+
 		fputs(lpChoices, fError);
 
         /* if no read function provided, fallback to default */
-- 
2.43.0


From 8c805c35b0141bb1d68348377a85323b848de0af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 027/143] fix: COPY and MOVE /Y and /-Y have their documented
 meaning

---
 pbat/command/pBat_Copy.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..9b21863 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -133,10 +133,13 @@ int pBat_CmdCopy(char* line)
 
         str = pBat_EsToChar(param);
 
-        if (!stricmp("/Y", str)
-            || !stricmp("/-Y", str)) {
+        if (!stricmp("/Y", str)) {
 
-            flags |= (*(str+1)=='-') ? PBAT_COPY_SILENCE : 0;
+            flags |= PBAT_COPY_SILENCE;
+
+        } else if (!stricmp("/-Y", str)) {
+
+            flags &= ~PBAT_COPY_SILENCE;
 
         } else if (!strnicmp("/A", str, 2)) {
 
-- 
2.43.0


From 0e8411cfad517a3487c04c87d04133b4798a36d0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 028/143] fix: COPY concatenates whatever the number of files

---
 pbat/command/pBat_Copy.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 9b21863..70a4291 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -283,11 +283,6 @@ int pBat_CmdCopy(char* line)
         end = end->lpflNext;
     }
 
-    end = files;
-
-    /* actual matching items */
-    while (end && (end = end->lpflNext) && (i++ < 2));
-
     /* Cmd does not accept several file names used in with a
        single *COPY* but for it, several files from a regular expression
        mean concatenation of file, which is somehow strange. */
@@ -296,7 +291,7 @@ int pBat_CmdCopy(char* line)
         flags |= PBAT_COPY_MULTIPLE;
     }
 
-    if (i == 3) {
+    if (files && files->lpflNext) {
 
         if (!(flags & PBAT_COPY_MULTIPLE)
             && !(flags & PBAT_COPY_MOVE))
-- 
2.43.0


From 076a4aefdc3870488194325ab0fcbf431a91ea94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 029/143] fix: COPY does not ask again for each concatenated
 file

---
 pbat/command/pBat_Copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 70a4291..71fca13 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -350,7 +350,7 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
     }
 
     if (pBat_FileExists(pBat_EsToChar(dest_real))
-        && !(*flags & PBAT_COPY_SILENCE)) {
+        && !(*flags & (PBAT_COPY_SILENCE | PBAT_COPY_CAT_2ND))) {
 
         ok = pBat_AskConfirmation(PBAT_ASK_YNA | PBAT_ASK_DEFAULT_N
                                     | PBAT_ASK_INVALID_REASK, NULL,
-- 
2.43.0


From eec4e77ad4800ae0cd91ac76801c27277337988f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 030/143] fix: COPY notices a write error that follows a
 partial write

---
 pbat/command/pBat_Copy.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 71fca13..2ff738f 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -506,7 +506,7 @@ int pBat_CopyFile(const char* file, const char* dest)
 {
     int old, new;
     char buf[2048];
-    size_t count, writen;
+    ssize_t count, writen, ret;
     struct stat info;
 
 #ifdef WIN32
@@ -562,9 +562,9 @@ int pBat_CopyFile(const char* file, const char* dest)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen < count) {
 
-            if (writen == -1) {
+            if ((ret = write(new, buf + writen, count - writen)) == -1) {
 
                 close(old);
                 close(new);
@@ -576,6 +576,8 @@ int pBat_CopyFile(const char* file, const char* dest)
 
             }
 
+            writen += ret;
+
         }
 
     }
@@ -597,7 +599,7 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 {
     int old, new, attr;
     char buf[2048];
-    size_t count, writen;
+    ssize_t count, writen, ret;
     struct stat info;
 
 #ifdef WIN32
@@ -666,9 +668,9 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen < count) {
 
-            if (writen == -1) {
+            if ((ret = write(new, buf + writen, count - writen)) == -1) {
 
                 close(old);
                 close(new);
@@ -680,6 +682,8 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
             }
 
+            writen += ret;
+
         }
 
     }
-- 
2.43.0


From 80134b6c40e570397fac19b6c9a8189bbe20d401 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 031/143] fix: MOVE does not remove the destination before it
 is replaced

---
 pbat/command/pBat_Copy.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 2ff738f..08b8a9f 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -488,9 +488,13 @@ end:
 
 int pBat_MoveFile(const char* file, const char* dest)
 {
-    if ((pBat_FileExists(dest)
-         && remove(dest))
-        || rename(file, dest)) {
+    if (
+#ifdef WIN32
+        /* only windows refuses to rename on an existing file */
+        (pBat_FileExists(dest)
+         && remove(dest)) ||
+#endif
+        rename(file, dest)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_MOVE | PBAT_PRINT_C_ERROR,
                                 file,
-- 
2.43.0


From 7bc7383dcbd6158d07a0df46b481bd74fac27d3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 032/143] fix: MOVE /R removes the source directories, not some
 of the destination

---
 pbat/command/pBat_Copy.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 08b8a9f..b4e0c81 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -466,9 +466,18 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
         while (item) {
 
-            pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
+            /* a directory where something has been left is kept */
+            if (rmdir(item->lpFileName)
+                && errno != ENOTEMPTY
+                && errno != EEXIST) {
 
-            status = pBat_Rmdir(real_dest->str);
+                pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR
+                                        | PBAT_PRINT_C_ERROR,
+                                      item->lpFileName, 0);
+
+                status |= PBAT_UNABLE_RMDIR;
+
+            }
 
             item = item->lpflNext;
 
-- 
2.43.0


From 05919dc049e47a47e2585f081bab0073c48ff15d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 033/143] fix: COPY does not destroy a file which is both a
 source and the destination

---
 pbat/command/pBat_Copy.c | 42 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index b4e0c81..96af401 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -97,6 +97,21 @@ int pBat__EndWithDirectoryMark(const char* dir)
     return PBAT_TEST_SEPARATOR(c);
 }
 
+/* Whether two paths refer to the same file */
+static int pBat_SameFile(const char* path1, const char* path2)
+{
+#ifdef WIN32
+    return !stricmp(path1, path2);
+#else
+    struct stat info1, info2;
+
+    return !stat(path1, &info1)
+           && !stat(path2, &info2)
+           && info1.st_dev == info2.st_dev
+           && info1.st_ino == info2.st_ino;
+#endif
+}
+
 int pBat_CmdCopy(char* line)
 {
 	FILELIST *files=NULL,
@@ -301,6 +316,17 @@ int pBat_CmdCopy(char* line)
     }
 
 
+    /* the destination would be overwritten before it is read */
+    if (flags & PBAT_COPY_CAT)
+        for (end = files ? files->lpflNext : NULL; end; end = end->lpflNext)
+            if (pBat_SameFile(end->lpFileName, file[len-1])) {
+
+                pBat_ShowErrorMessage(PBAT_UNABLE_CAT, end->lpFileName, 0);
+                status = PBAT_UNABLE_CAT;
+                goto end;
+
+            }
+
     while (files) {
 
         status |= pBat_CmdCopyFile(files->lpFileName, file[len-1], &flags);
@@ -379,6 +405,22 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
             status = pBat_MoveFile(file, dest_real->str);
 
+        } else if (pBat_FileExists(file)
+                   && pBat_SameFile(file, dest_real->str)) {
+
+            if ((*flags & PBAT_COPY_CAT)
+                && !(*flags & PBAT_COPY_CAT_2ND)) {
+
+                /* the others files are appended to the first one */
+                *flags |= PBAT_COPY_CAT_2ND;
+
+            } else {
+
+                pBat_ShowErrorMessage(PBAT_UNABLE_COPY, file, 0);
+                status = PBAT_UNABLE_COPY;
+
+            }
+
         } else if (*flags & PBAT_COPY_CAT) {
 
             status = pBat_CatFile(file, dest_real->str, flags);
-- 
2.43.0


From 4ea6ea717910eaa3e71228785439e76457fd1d6a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 034/143] fix: COPY reports that the data could not reach the
 disk

---
 pbat/command/pBat_Copy.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 96af401..f42528e 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -640,7 +640,18 @@ int pBat_CopyFile(const char* file, const char* dest)
     #ifdef WIN32
         _commit(new);
     #else
-        fsync(new);
+        /* special files may not support synchronization */
+        if (fsync(new) && errno != EINVAL && errno != EROFS) {
+
+            close(old);
+            close(new);
+
+            pBat_ShowErrorMessage(PBAT_UNABLE_COPY
+                                    | PBAT_PRINT_C_ERROR, file, 0);
+
+            return PBAT_UNABLE_COPY;
+
+        }
     #endif // WIN32
 
     close(old);
@@ -746,7 +757,18 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
     #ifdef WIN32
         _commit(new);
     #else
-        fsync(new);
+        /* special files may not support synchronization */
+        if (fsync(new) && errno != EINVAL && errno != EROFS) {
+
+            close(old);
+            close(new);
+
+            pBat_ShowErrorMessage(PBAT_UNABLE_CAT
+                                    | PBAT_PRINT_C_ERROR, file, 0);
+
+            return PBAT_UNABLE_CAT;
+
+        }
     #endif // WIN32
 
     close(old);
-- 
2.43.0


From d81ec5f7b37f0bf587d1a356a40789e4694784b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 035/143] fix: DEL /P asks before deleting

---
 pbat/command/pBat_Del.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 95ab3c4..194dba7 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -93,6 +93,7 @@ int pBat_CmdDel(char* lpLine)
 
 			/* Ask before suppressing */
 			param|=PBAT_ASK_CONFIRMATION;
+			choice = 0;
 
 		} else if (!stricmp(lpToken, "/F")) {
 
-- 
2.43.0


From 47a387eed19ca4498676dbb3a36748336a72a480 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 036/143] fix: DEL does not change the mode of the files it
 keeps

---
 pbat/command/pBat_Del.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 194dba7..bd03a2e 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -287,7 +287,8 @@ int pBat_CmdDelFile(char* file, int fmode, int param, int* choice)
 
     }
 
-    if (fmode & PBAT_FILE_READONLY) {
+    if ((fmode & PBAT_FILE_READONLY)
+        && ((res == PBAT_ASK_ALL) || (res == PBAT_ASK_YES))) {
 
         /* if the file is read-only, windows will not let you delete it,
            for this, adjusting permissions is somehow needed.
-- 
2.43.0


From d57a86719047044200c2764aa1ef76dc6db6fb01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 037/143] fix: RD reports that the directory could not be
 removed

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..25c1205 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -153,7 +153,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         /* This is simple case where we just need to remove the dir */
         choice = PBAT_ASK_ALL;
-        pBat_CmdRmdirFile(name[0], param, &choice);
+        status = pBat_CmdRmdirFile(name[0], param, &choice);
 
     } else if (n == 0) {
 
-- 
2.43.0


From 79f34b2f2b229cb26102cc4431e24a142cfd8931 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 038/143] fix: RD of several names does not delete files

---
 pbat/command/pBat_Rmdir.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 25c1205..872dd8c 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -202,9 +202,11 @@ int pBat_CmdRmdir(char* lpLine)
 
         while (next) {
 
-
-            status |= pBat_CmdDelFile(next->lpFileName, pBat_GetFileMode(next),
+            if (mode & PBAT_SEARCH_RECURSIVE)
+                status |= pBat_CmdDelFile(next->lpFileName, pBat_GetFileMode(next),
                                                                     param, &choice);
+            else
+                status |= pBat_CmdRmdirFile(next->lpFileName, param, &choice);
 
             next = next->lpflNext;
 
-- 
2.43.0


From 58eedd7ae58243db533792ba6645a3f3d03d5e6a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 039/143] fix: recursive commands do not follow the symbolic
 links out of the tree

---
 libpbat/dir/pBat_Dir.c    | 26 ++++++++++++++++++++++----
 pbat/command/pBat_Rmdir.c |  8 ++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index ca9c2de..8bf2d7d 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -101,6 +101,19 @@ char* pBat_GetNextLevel(char* up, char* base, int* jok)
     return NULL;
 }
 
+/* Recursive searches stay inside of the tree where they begin, hence they
+   do not follow the symbolic links. */
+static int pBat_IsSymLink(const char* path)
+{
+#ifdef WIN32
+    return 0;
+#else
+    struct stat info;
+
+    return !lstat(path, &info) && S_ISLNK(info.st_mode);
+#endif
+}
+
 static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t* arg)
 {
     FILELIST *file,
@@ -193,7 +206,9 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
 
         if ((arg->flags &
                 (PBAT_SEARCH_DIR_MODE | PBAT_SEARCH_RECURSIVE))
-            && pBat_DirExists(up)) {
+            && pBat_DirExists(up)
+            && ((arg->flags & PBAT_SEARCH_DIR_MODE)
+                || !pBat_IsSymLink(up))) {
             /* This regular expression is trivial however either dir mode
                or recursive modes have been specified. Thus we need to
                search matching files _inside_ the directory */
@@ -356,7 +371,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                     ret = tmp;
                 }
 
-                if (arg->flags & PBAT_SEARCH_RECURSIVE) {
+                if ((arg->flags & PBAT_SEARCH_RECURSIVE)
+                    && !pBat_IsSymLink(path->str)) {
 
                     arg->files = ret;
                     ret = pBat_GetMatch(path->str, up, arg);
@@ -444,7 +460,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                     }
 
                     if ((arg->flags & PBAT_SEARCH_RECURSIVE)
-                        && (strcmp(ent->d_name, ".") && strcmp(ent->d_name, ".."))) {
+                        && (strcmp(ent->d_name, ".") && strcmp(ent->d_name, ".."))
+                        && !pBat_IsSymLink(path->str)) {
 
                         arg->files = ret;
                         ret = pBat_GetMatch(path->str, item, arg);
@@ -498,7 +515,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                 pBat_EsCpy(path, ent->d_name);
             }
 
-            if (pBat_DirExists(path->str)) {
+            if (pBat_DirExists(path->str)
+                && !pBat_IsSymLink(path->str)) {
 
                 /* if it does not match *but* we are in recursive mode, browse
                    anyway */
diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 872dd8c..520b459 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -260,6 +260,14 @@ int pBat_CmdRmdirFile(char* dir, int param, int* choice)
 
     if ((res == PBAT_ASK_ALL) || (res == PBAT_ASK_YES)) {
 
+#ifndef WIN32
+        struct stat info;
+
+        /* a symbolic link to a directory is removed, not its target */
+        if (!lstat(dir, &info) && S_ISLNK(info.st_mode))
+            return pBat_DelFile(dir);
+#endif
+
         return pBat_Rmdir(dir);
 
     }
-- 
2.43.0


From ef1972e4a5cb08182093396cfe8a2132710b2181 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 040/143] fix: EXIT /B code accepts blanks after the code

---
 pbat/command/pBat_Exit.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index a80ff71..8700991 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -73,6 +73,9 @@ int pBat_CmdExit(char* lpLine)
 
             if ((ntoken = pBat_GetNextParameterEs(ntoken, param))) {
 
+                while (*ntoken == ' ' || *ntoken == '\t')
+                    ntoken ++;
+
                 if (*ntoken) {
 
                     pBat_ShowErrorMessage(PBAT_UNEXPECTED_ELEMENT, ntoken, 0);
-- 
2.43.0


From a63a6d56f66d040aa33d5353c472c001ead323bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 041/143] fix: error messages give the actual reason of the
 error

---
 pbat/errors/pBat_Errors.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 5753112..8399d00 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -246,11 +246,12 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
                            int iExitCode)
 {
 	char* msg = "Undefined";
+	int err = errno;
 
 	pBat_SetConsoleTextColor(fError, PBAT_GET_BACKGROUND(colColor) | PBAT_FOREGROUND_IRED);
 
 	if (iErrorNumber & PBAT_PRINT_C_ERROR)
-        msg = strerror(errno);
+        msg = strerror(err);
 
 	if ((iErrorNumber & ~PBAT_PRINT_C_ERROR) < sizeof(lpErrorMsg)) {
 
-- 
2.43.0


From dbf340974720a62ccf9a8808deb1201e5160f14d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 042/143] fix: file search does not give uninitialised
 information on broken links

---
 libpbat/dir/pBat_Dir.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 8bf2d7d..be2f839 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -114,6 +114,20 @@ static int pBat_IsSymLink(const char* path)
 #endif
 }
 
+/* Broken links have no target to look at, thus look at the link itself. */
+static void pBat_StatMatch(const char* name, struct stat* info)
+{
+    if (!stat(name, info))
+        return;
+
+#ifndef WIN32
+    if (!lstat(name, info))
+        return;
+#endif
+
+    memset(info, 0, sizeof(struct stat));
+}
+
 static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t* arg)
 {
     FILELIST *file,
@@ -124,7 +138,7 @@ static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t*
         snprintf(block.lpFileName, FILENAME_MAX, "%s", name);
 
         if (!(arg->flags & PBAT_SEARCH_NO_STAT)) {
-            stat(name, &(block.stFileStats));
+            pBat_StatMatch(name, &(block.stFileStats));
 
 #ifdef WIN32
 
@@ -150,7 +164,7 @@ static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t*
     /* fixme : doing something less time-consuming is
        probably possible */
     if (!(arg->flags & PBAT_SEARCH_NO_STAT)) {
-        stat(name, &(file->stFileStats));
+        pBat_StatMatch(name, &(file->stFileStats));
 
 #ifdef WIN32
 
-- 
2.43.0


From 61d643e5361f8d3db69f424851e5c262fbce46ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 043/143] fix: variables are found whatever the addresses and
 the names of the others

---
 pbat/core/pBat_Env.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..bd10c1a 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -25,6 +25,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 
 #include "../errors/pBat_Errors.h"
 #include "pBat_Core.h"
@@ -37,19 +38,22 @@ int pBat_EnvCompName(const void* p1, const void* p2)
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        /* unused items are at the beginning */
+        return (pVar1->name != NULL) - (pVar2->name != NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
 
 int pBat_EnvCompLocal(const void* p1, const void* p2)
 {
-    ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
+    ENVVAR *pVar2=*((ENVVAR**)p2);
 
+    /* unused items are at the beginning */
     if ((pVar2->name == NULL))
-        return - PBAT_ENV_LOCAL_PREFIX;
+        return 1;
 
-    return *(pVar2->name) - PBAT_ENV_LOCAL_PREFIX;
+    /* same order as pBat_EnvCompName() */
+    return PBAT_ENV_LOCAL_PREFIX - tolower((unsigned char)*(pVar2->name));
 }
 
 #define PBAT_ENV_BLOCK_MASK 0x7F
-- 
2.43.0


From 2fbc39f58922d18942dc43199b35d1b09b973790 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 044/143] fix: a new variable is not inherited because an unset
 one was

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index bd10c1a..d356ab4 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -319,7 +319,7 @@ error:
 
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
-        (*pRes)->inherit |= inherit;
+        (*pRes)->inherit = inherit;
 
     } else {
 
-- 
2.43.0


From 1960b656f12df85168ef7ca9bf98e6c980327b9e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 045/143] fix: unsetting a variable ignores the blanks at the
 end of the name

---
 pbat/core/pBat_Env.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index d356ab4..eacdebc 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -362,11 +362,21 @@ error:
 void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
 {
     ENVVAR **pRes,
-            key={name, NULL},
+            key={NULL, NULL},
             *pKey = &key;
 
+    if (!(key.name = strdup(name)))
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_UnSetEnv()",
+                                -1
+                                );
+
+    pBat_AdjustVarName(key.name);
+
     pRes = bsearch(&pKey, pEnv->envbuf, pEnv->index, sizeof(ENVVAR*), pBat_EnvCompName);
 
+    free(key.name);
+
     /* Do not let local variables used by previous contexts be freed */
     if (pRes &&
         ((*pRes)->previous) == NULL) {
-- 
2.43.0


From 911ffc9638e144aa7b35d037121d016ab8b1c229 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 046/143] fix: external commands do not receive the variables
 that have been unset

---
 pbat/core/pBat_Env.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index eacdebc..1d86d0f 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -33,6 +33,10 @@
 
 #include <libpBat.h>
 
+#if !defined(WIN32)
+extern char** environ;
+#endif
+
 int pBat_EnvCompName(const void* p1, const void* p2)
 {
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
@@ -417,6 +421,13 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
     int i;
     ESTR* exp = pBat_EsInit_Cached();
 
+#if !defined(WIN32)
+    /* the variables which have been unset do not exist anymore */
+    static char* empty[] = {NULL};
+
+    environ = empty;
+#endif
+
     for (i=0; i < pEnv->index; i++) {
 
         if (pEnv->envbuf[i]->name == NULL)
-- 
2.43.0


From a136959cdc3be88b4d9cd43267438f79ab2a778d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 047/143] fix: a jump to an unknown label does not free
 uninitialised memory

---
 pbat/core/pBat_Jump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..417b5e6 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -81,7 +81,9 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        if (new)
+            pBat_FreeBatchScript(&script);
+
         return -1;
 
     }
-- 
2.43.0


From 0a464da7576b023182012d56a9667a621cf4971a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 048/143] fix: the changes of a running script are noticed

---
 pbat/core/pBat_ReadScript.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..5f5bb56 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -322,7 +322,7 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
 /* Check batch script changes */
 int pBat_CheckBatchScriptChanges(struct batch_script_t* script)
 {
-    int ret, err;
+    int ret, err = 0;
 
     ret = (script->size != pBat_GetScriptSize(script, &err));
 
-- 
2.43.0


From d15a6f2267c8c17add4cbd2b6df20fcbb025df42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 049/143] fix: a local variable can be unset in a procedure
 called by the one which set it

---
 pbat/command/pBat_Set.c |  1 +
 pbat/core/pBat_Env.c    | 28 ++++++++++++++++++++--------
 pbat/core/pBat_Env.h    |  1 +
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 104c50f..eb681ea 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -205,6 +205,7 @@ int pBat_CmdSet(char *lpLine)
 		for (i=0; i < lpeEnv->index; i++) {
 			if (*lpLine == '\0'
                 || ((lpeEnv->envbuf[i]->name != NULL)
+                    && !lpeEnv->envbuf[i]->unset
                     && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
 
 				found = TRUE;
diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 1d86d0f..39b9f28 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -102,9 +102,13 @@ ENVBUF* pBat_EnvDup(ENVBUF* pBuf)
 
     pNew->nb = pBuf->nb;
 
-    for (i=0;i < pBuf->index; i++)
+    for (i=0;i < pBuf->index; i++) {
+
         pNew->envbuf[i] = pBat_AllocEnvVar(pBuf->envbuf[i]->name,
                                         pBuf->envbuf[i]->content);
+        pNew->envbuf[i]->unset = pBuf->envbuf[i]->unset;
+
+    }
 
     pNew->index = pBuf->index;
 
@@ -138,6 +142,7 @@ error:
 
     pRet->previous = NULL;
     pRet->inherit = 0;
+    pRet->unset = 0;
 
     return pRet;
 }
@@ -243,7 +248,7 @@ char* pBat_GetEnv(ENVBUF* pEnv, const char* name)
 
     //printf ("got : pRes->")
 
-    if (!pRes)
+    if (!pRes || (*pRes)->unset)
         return NULL;
 
     return (*pRes)->content;
@@ -305,6 +310,7 @@ error:
         }
 
         (*pRes)->inherit |= inherit;
+        (*pRes)->unset = 0;
 
         return;
 
@@ -324,6 +330,7 @@ error:
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
         (*pRes)->inherit = inherit;
+        (*pRes)->unset = 0;
 
     } else {
 
@@ -346,6 +353,7 @@ error:
 
         pEnv->envbuf[pEnv->index]->name = namecpy;
         pEnv->envbuf[pEnv->index]->inherit = inherit;
+        pEnv->envbuf[pEnv->index]->unset = 0;
         pEnv->envbuf[pEnv->index]->previous = NULL;
 
         ++ pEnv->index;
@@ -382,8 +390,11 @@ void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
     free(key.name);
 
     /* Do not let local variables used by previous contexts be freed */
-    if (pRes &&
-        ((*pRes)->previous) == NULL) {
+    if (pRes && (*pRes)->previous) {
+
+        (*pRes)->unset = 1;
+
+    } else if (pRes) {
 
         free((*pRes)->name);
         free((*pRes)->content);
@@ -430,7 +441,7 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
 
     for (i=0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL || pEnv->envbuf[i]->unset)
             continue;
 
         #if !defined(WIN32)
@@ -452,7 +463,7 @@ void pBat_UnApplyEnv(ENVBUF* pEnv)
 
     for (i=0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL || pEnv->envbuf[i]->unset)
             continue;
 
         #if !defined(WIN32)
@@ -476,7 +487,7 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL || pEnv->envbuf[i]->unset)
             continue;
 
         pEnv->envbuf[i]->size = strlen(pEnv->envbuf[i]->content)
@@ -496,7 +507,7 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL || pEnv->envbuf[i]->unset)
             continue;
 
         strcpy(p, pEnv->envbuf[i]->name);
@@ -519,6 +530,7 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
                     PBAT_PRINT_C_ERROR, \
                     __FILE__ "/pBat_PushEnvLocals()", -1); \
 \
+        pNew->unset = (*pVar)->unset; \
         pNew->previous = *pVar; \
         *pVar = pNew;
 
diff --git a/pbat/core/pBat_Env.h b/pbat/core/pBat_Env.h
index fe06eb4..42267f8 100644
--- a/pbat/core/pBat_Env.h
+++ b/pbat/core/pBat_Env.h
@@ -31,6 +31,7 @@ typedef struct ENVVAR {
     char* content; /* a pointer to the content of the variable */
     struct ENVVAR* previous;
     int inherit;
+    int unset; /* the variable is unset, but hides a previous value */
     size_t size; /* size for elaborating blocks */
 } ENVVAR;
 
-- 
2.43.0


From 26b1caf6111a83ec8aa43b4570d9d7cdc3abbcf0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 050/143] fix: SET does not list the variables that have been
 unset

---
 pbat/command/pBat_Set.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index eb681ea..34bc654 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,10 +203,10 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (*lpLine == '\0'
-                || ((lpeEnv->envbuf[i]->name != NULL)
-                    && !lpeEnv->envbuf[i]->unset
-                    && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
+			if ((lpeEnv->envbuf[i]->name != NULL)
+                && !lpeEnv->envbuf[i]->unset
+                && (*lpLine == '\0'
+                    || !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
 
 				found = TRUE;
 
-- 
2.43.0


From 19edbedc12628e9ec556b604d1e2bce069972cdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 051/143] fix: SET /A gives nan for the remainder of a division
 of integers by 0

---
 libfasteval/lib/parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index f283eb3..8f77040 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -164,7 +164,7 @@ expression
   $$.is_double  = $1.is_double || $3.is_double || ILLEGAL_DIVISION($1, $3);
   if (!($$.is_double))
     $$.i = $1.i % $3.i;
-  $$.d = fmod($1.d, $3.d);
+  $$.d = ILLEGAL_DIVISION($1, $3) ? NAN : fmod($1.d, $3.d);
 
 }
 /* As there is no reason to store the result of a bitwise operator as double,
-- 
2.43.0


From e6673eff4867a35ccfe5f8f47aa0cb708a25b3e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 052/143] fix: the blanks at the end of the inherited variables
 are kept

---
 pbat/core/pBat_Env.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 39b9f28..494323b 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -206,10 +206,10 @@ error:
 
         }
 
-        pBat_AdjustVarName(pStr);
-
         *(pCh++) = '\0';
 
+        pBat_AdjustVarName(pStr);
+
         pBuf[nb] = pBat_AllocEnvVar(pStr, pCh);
 
         free(pStr);
-- 
2.43.0


From e2a0b1334cb4a2381fcb0def5cc0cc7ed1faf8ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 053/143] fix: the output of a command comes before the one of
 the programs run after it

---
 pbat/core/pBat_Exec.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..ac9813f 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -291,6 +291,11 @@ int pBat_RunFile(EXECINFO* info, int* error)
                                 __FILE__ "/pBat_RunFile()",
                                 -1);
 
+	/* what has been written so far comes before the output of the child,
+	   and must not be written by the child too */
+	fflush(fOutput);
+	fflush(fError);
+
 	iPid=fork();
 
 	if (iPid == 0 ) {
@@ -549,6 +554,11 @@ int pBat_StartFile(EXECINFO* info, int* error)
     if (!script)
         script = START_SCRIPT;
 
+    /* what has been written so far comes before the output of the child,
+       and must not be written by the child too */
+    fflush(fOutput);
+    fflush(fError);
+
     pid = fork();
 
     if (pid == 0) {
-- 
2.43.0


From bbcd7397757f96989fc85a19bebdbe3afd6a46e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 054/143] fix: the input of a pipe is read even if the end of
 another one has been reached

---
 pbat/core/pBat_Stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 2dc1805..728f4d0 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -89,6 +89,7 @@
                 lseek(fileno(s), ftell(s), SEEK_SET); \
             fflush(s); \
             __PBAT_DUP_STD(fd, s) \
+            clearerr(s); /* the end of the former file is not this one's */ \
             PBAT_RESET_BUFFERING(fd, s)
 
 #define PBAT_XDUP(fd, s) \
-- 
2.43.0


From cc1afd74556ab47a2884fe05a7537ff784d30149 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 055/143] fix: an input redirection has a stream of its own,
 read ahead data gets neither lost nor leaks

---
 pbat/core/pBat_Clone.c   |  1 +
 pbat/core/pBat_Exec.c    |  2 ++
 pbat/core/pBat_ExitInt.c |  1 +
 pbat/core/pBat_Stream.c  | 34 +++++++++++++++++++++++++++-------
 pbat/core/pBat_Stream.h  |  1 +
 5 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 7b63111..ec47206 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -146,6 +146,7 @@ int pBat_DuplicateData(struct clone_data_t* data)
                                 | PBAT_PRINT_C_ERROR, \
                                 __FILE__ "/pBat_DuplicateData()", -1)
 
+    fflush(fInput); /* give what has been read ahead back to the descriptor */
     DUPLICATE_STREAM(data->fInput, fInput, "r");
     DUPLICATE_STREAM(data->fOutput, fOutput, "w");
     DUPLICATE_STREAM(data->fError, fError, "w");
diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index ac9813f..6eb8242 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -295,6 +295,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 	   and must not be written by the child too */
 	fflush(fOutput);
 	fflush(fError);
+	fflush(fInput); /* the child shall read what has only been read ahead */
 
 	iPid=fork();
 
@@ -558,6 +559,7 @@ int pBat_StartFile(EXECINFO* info, int* error)
        and must not be written by the child too */
     fflush(fOutput);
     fflush(fError);
+    fflush(fInput); /* the child shall read what has only been read ahead */
 
     pid = fork();
 
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index f9090c9..c7b325d 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -39,6 +39,7 @@ void pBat_Exit(void)
 
     /* pBat_WaitForAllThreads(); */
 
+    fflush(fInput); /* give what has been read ahead back to the descriptor */
     fclose(fInput);
     fclose(fOutput);
     fclose(fError);
diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..08d3bd8 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -72,6 +72,27 @@ void pBat_FreeStreamStack(STREAMSTACK* stack)
     }
 }
 
+/* Open a new input stream upon fd. What has been read ahead by a stream can
+   not be given back to its descriptor if the latter is a pipe, so that each
+   redirection of the input needs a stream of its own */
+static FILE* pBat_OpenInput(int fd)
+{
+    FILE* stream;
+
+    if (fd == -1 || (stream = fdopen(fd, "r")) == NULL) {
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD
+                                | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_OpenInput()", -1);
+        return NULL;
+
+    }
+
+    PBAT_RESET_BUFFERING(fd, stream);
+
+    return stream;
+}
+
 /* Duplicate file based on a file name or a file descriptor */
 STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
 {
@@ -124,9 +145,8 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     switch (fd) {
 
     case PBAT_STDIN:
-        PBAT_XDUP(item->oldfd, fInput);
-        PBAT_DUP_STDIN(newfd, fInput);
-        close(newfd);
+        item->oldin = fInput;
+        fInput = pBat_OpenInput(newfd);
         break;
 
     case PBAT_STDOUT:
@@ -178,8 +198,8 @@ STREAMSTACK* pBat_OpenOutputD(STREAMSTACK* stack, int newfd, int fd)
     switch (fd) {
 
     case PBAT_STDIN:
-        PBAT_XDUP(item->oldfd, fInput);
-        PBAT_DUP_STDIN(newfd, fInput);
+        item->oldin = fInput;
+        fInput = pBat_OpenInput(dup(newfd));
         break;
 
     case PBAT_STDOUT:
@@ -217,8 +237,8 @@ STREAMSTACK* pBat_PopStreamStack(STREAMSTACK* stack)
     switch (stack->fd) {
 
     case PBAT_STDIN:
-        PBAT_DUP_STDIN(stack->oldfd, fInput);
-        close(stack->oldfd);
+        fclose(fInput);
+        fInput = stack->oldin;
         break;
 
     case PBAT_STDOUT:
diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 728f4d0..9e6053a 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -108,6 +108,7 @@
 typedef struct STREAMSTACK {
     int fd; /* the file descriptor that has been redirected */
     int oldfd; /* a duplicate of the previous fd associated with fd */
+    FILE* oldin; /* the previous input stream, if fd is PBAT_STDIN */
     int subst; /* a operation of file substitution if either 2>&1 or 1>&2 is used */
     int lock; /* a lock to prevent element from being popped */
     struct STREAMSTACK* previous;
-- 
2.43.0


From 845bab3c356eb34e0e0649186c27f43de4fa416d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 056/143] fix: WC and the questions don't skip what has been
 read ahead from the standard input

---
 pbat/command/pBat_Ask.c |  3 ++-
 pbat/command/pBat_Wc.c  | 14 +++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index 006e22e..66cbb20 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -54,7 +54,8 @@ int xread(int fd, void* p, size_t sz)
 
 }
 #else
-#define xread(fd, p, n) read(fd, p, n)
+/* the answers may have been read ahead by the stream */
+#define xread(fd, p, n) ((int)fread(p, 1, n, fInput))
 #endif // defined
 
 void pBat_AskConfirmationRead(char* buffer, size_t size)
diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index a33ff29..d7c9aa2 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -64,8 +64,8 @@
 
 int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 {
-    int fd,
-        inword = 0; /* true if within a word */
+    int inword = 0; /* true if within a word */
+    FILE* stream;
     char buf[1024], *pch;
     size_t size;
 
@@ -75,9 +75,9 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     if (file == NULL) {
 
-        fd = fileno(fInput);
+        stream = fInput;
 
-    } else if ((fd = open(file, O_RDONLY | O_BINARY)) == -1) {
+    } else if ((stream = fopen(file, "rb")) == NULL) {
 
         pBat_ShowErrorMessage(PBAT_FILE_ERROR, file,0);
         return PBAT_FILE_ERROR;
@@ -90,7 +90,7 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
     cnt->words = 0;
     cnt->lines = 0;
 
-    while ((size = read(fd, buf, sizeof(buf))) && size != -1) {
+    while ((size = fread(buf, 1, sizeof(buf), stream))) {
 
         /* add bytes */
         cnt->bytes += size;
@@ -151,8 +151,8 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
-    if (fd != fileno(fInput)) {
-        close(fd);
+    if (stream != fInput) {
+        fclose(stream);
     } else if (isatty(fileno(fInput))) {
         clearerr(fInput);
     }
-- 
2.43.0


From 63d17b987003d09538ba46736f9dc2f367346a81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 057/143] fix: IF and FOR on the right of an operator, test it
 once and run their first command

---
 pbat/core/pBat_Run.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..fd0e8d5 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -104,6 +104,16 @@ int pBat_RunBatch(INPUT_FILE* pIn)
 
 }
 
+/* Tell if a command is a lookahead command, that is to say a command that
+   automatically swallows every operators on the right hand side of the line */
+static int pBat_IsLookAHead(ESTR* cmd)
+{
+    char* pch = pBat_SkipAllBlanks(pBat_EsToChar(cmd));
+
+    return (!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch + 2)))
+        || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3)));
+}
+
 #define EXECOPERATORS_SKIP 1
 #define EXECOPERATORS_END 2
 int pBat_ExecOperators(PARSED_LINE** lpLine)
@@ -112,20 +122,15 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
     THREAD res;
     struct pipe_launch_data_t* infos;
     PARSED_LINE* line=*lpLine;
-    char *pch;
     int status = 0,
         lastin = -1;
 
-    pch = line->lpCmdLine->str;
-    pch = pBat_SkipAllBlanks(pch);
-
     /* if we encounter a lookahead command, end processing the line,
        indeed if and for automatically swallow every operators on the
        right hand side of the line
 
        so return the EXECOPERATORS_END status */
-    if ((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch +2)))
-        || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3))))
+    if (pBat_IsLookAHead(line->lpCmdLine))
         status |= EXECOPERATORS_END;
 
     switch (line->cNodeType) {
@@ -193,6 +198,9 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
         else
             break;
 
+        if (pBat_IsLookAHead(line->lpCmdLine))
+            status |= EXECOPERATORS_END;
+
     }
 
     if (lastin != -1) {
@@ -327,7 +335,6 @@ int pBat_RunLine(ESTR* lpLine)
 void pBat_RunParsedLine(PARSED_LINE* line)
 {
 	int lock, ok;
-	char *pch;
 
 	/* loop though operators */
 	do {
@@ -335,9 +342,6 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 		lock = pBat_GetStreamStackLockState(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, 1);
 
-        pch = line->lpCmdLine->str;
-        pch = pBat_SkipAllBlanks(pch);
-
         ok = pBat_ExecOperators(&line);
 
         /* If aborting, remove the last level of redirection
@@ -370,8 +374,7 @@ void pBat_RunParsedLine(PARSED_LINE* line)
                 If 1==1 (echo test > foo & echo test2)
 
             */
-		if (!((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch +2)))
-            || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3)))))
+		if (!pBat_IsLookAHead(line->lpCmdLine))
             pBat_ExecOutput(line->sStream);
 
 		pBat_RunCommand(line->lpCmdLine, &line);
@@ -844,6 +847,9 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
 
     lookahead->lpCmdLine = cmd;
 
+    /* the operator before the lookahead command has already been processed */
+    lookahead->cNodeType = PARSED_STREAM_NODE_NONE;
+
     return lookahead;
 }
 
-- 
2.43.0


From 72651338772a5f097a38a6494a001a73d8726191 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 058/143] fix: FOR runs its body as it was written at each turn

---
 pbat/command/pBat_For.c | 18 ++++++++++++++----
 pbat/core/pBat_Parse.c  | 32 ++++++++++++++++++++++++++++++++
 pbat/core/pBat_Parse.h  |  1 +
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8fb45d6..cf8ded6 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -356,11 +356,21 @@ error:
         *lpplLine = NULL;
 
 	if (!lpplLine && line)
-        pBat_FreeParsedStream(line);
+        pBat_FreeParsedLine(line);
 
 	return status;
 }
 
+/* Run the commands of the loop. Commands get modified when they are executed
+   (expansion, nested IF and FOR), so that each turn needs its own copy. */
+static void pBat_ForRunBody(PARSED_LINE* body)
+{
+    PARSED_LINE* line = pBat_DuplicateParsedLine(body);
+
+    pBat_RunParsedLine(line);
+    pBat_FreeParsedLine(line);
+}
+
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 								char* lpDelimiters)
 {
@@ -464,7 +474,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 		pBat_SetLocalVar(lpvLocalVars, cVarName, pBat_EsToChar(lpesStr));
 
 		/* run the block */
-		pBat_RunParsedLine(lpplLine);
+		pBat_ForRunBody(lpplLine);
 
 		/* if a goto as been executed while the for-loop
 		   was ran */
@@ -543,7 +553,7 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 
 		/* execute the code */
 
-		pBat_RunParsedLine(lpplLine);
+		pBat_ForRunBody(lpplLine);
 
 
 		/* if a goto as been executed while the for-loop
@@ -594,7 +604,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 			pBat_ForSplitTokens(lpInputToP, lpfrInfo);
 			/* split the block on subtokens */
 
-			pBat_RunParsedLine(lpplLine);
+			pBat_ForRunBody(lpplLine);
 			/* split the input into tokens and then run the
 			    block */
 		}
diff --git a/pbat/core/pBat_Parse.c b/pbat/core/pBat_Parse.c
index 93ac257..9184ead 100644
--- a/pbat/core/pBat_Parse.c
+++ b/pbat/core/pBat_Parse.c
@@ -499,6 +499,38 @@ void pBat_FreeParsedLine(PARSED_LINE* line)
         free(last);
 }
 
+/* Duplicate a whole chain of commands */
+PARSED_LINE* pBat_DuplicateParsedLine(PARSED_LINE* line)
+{
+    PARSED_LINE *begin = NULL, *item = NULL;
+
+    while (line) {
+
+        if (!(item = pBat_AllocParsedLine(item))) {
+
+            pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                    __FILE__ "/pBat_DuplicateParsedLine()",
+                                    -1);
+            return NULL;
+
+        }
+
+        if (!begin)
+            begin = item;
+
+        pBat_EsCpyE(item->lpCmdLine, line->lpCmdLine);
+        item->cNodeType = line->cNodeType;
+
+        if (line->sStream)
+            item->sStream = pBat_DuplicateParsedStream(line->sStream);
+
+        line = line->lppsNode;
+
+    }
+
+    return begin;
+}
+
 PARSED_STREAM* pBat_DuplicateParsedStream(PARSED_STREAM* stream)
 {
     PARSED_STREAM* ret;
diff --git a/pbat/core/pBat_Parse.h b/pbat/core/pBat_Parse.h
index 6a09c1c..00f83c6 100644
--- a/pbat/core/pBat_Parse.h
+++ b/pbat/core/pBat_Parse.h
@@ -68,6 +68,7 @@ PARSED_STREAM* pBat_AllocParsedStream(void);
 void pBat_FreeParsedLine(PARSED_LINE* lppsStream);
 void pBat_FreeParsedStream(PARSED_STREAM* lppssStart);
 PARSED_STREAM* pBat_DuplicateParsedStream(PARSED_STREAM* stream);
+PARSED_LINE* pBat_DuplicateParsedLine(PARSED_LINE* line);
 
 #define pBat_FreeLine(lpssStreamStart) pBat_FreeParsedLine(lpssStreamStart)
 
-- 
2.43.0


From 18a5ffa84ae6523a103f14d7d79ff260b60b2b05 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 059/143] fix: IF and FOR keep the status of the commands they
 run

---
 pbat/command/pBat_For.c | 3 ++-
 pbat/command/pBat_If.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index cf8ded6..9f86eb9 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -358,7 +358,8 @@ error:
 	if (!lpplLine && line)
         pBat_FreeParsedLine(line);
 
-	return status;
+    /* the status is the one of the last command that was run */
+	return status ? status : iErrorLevel;
 }
 
 /* Run the commands of the loop. Commands get modified when they are executed
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 0443393..ad2ed77 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -436,7 +436,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
     if (lpplLine)
         *lpplLine = NULL;
 
-	return 0;
+    /* the status is the one of the last command that was run */
+	return iErrorLevel;
 }
 
 /* Get the value from the chain pointed to by *number and return a value
-- 
2.43.0


From cf67bb29508cd2f78784af4d29cb649a1ff62a89 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 060/143] fix: a pipe waits for its left hand side, no deadlock
 at exit nor lost side effects

---
 pbat/core/pBat_ExitInt.c |  4 +--
 pbat/core/pBat_Run.c     | 56 +++++++++++++++++++++++++++++++++++++---
 pbat/core/pBat_Run.h     |  3 +++
 3 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index c7b325d..4011874 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -37,10 +37,10 @@ void pBat_Exit(void)
 
 	pBat_EsCacheDrop(&ecEstrCache);
 
-    /* pBat_WaitForAllThreads(); */
-
     fflush(fInput); /* give what has been read ahead back to the descriptor */
     fclose(fInput);
     fclose(fOutput);
     fclose(fError);
+
+    pBat_WaitForPipeThreads();
 }
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index fd0e8d5..fcdd96b 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -104,6 +104,52 @@ int pBat_RunBatch(INPUT_FILE* pIn)
 
 }
 
+/* The threads running the left hand sides of the pipes which are currently
+   processed by this thread */
+struct pipe_thread_t {
+    THREAD thread;
+    struct pipe_thread_t* previous;
+};
+
+static __thread struct pipe_thread_t* pPipeThreads = NULL;
+
+static void pBat_PushPipeThread(THREAD thread)
+{
+    struct pipe_thread_t* item;
+
+    if ((item = malloc(sizeof(struct pipe_thread_t))) == NULL)
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_PushPipeThread()", -1);
+
+    item->thread = thread;
+    item->previous = pPipeThreads;
+    pPipeThreads = item;
+}
+
+/* Wait for the completion of the threads that were launched after last */
+static void pBat_WaitForPipeThreadsUntil(struct pipe_thread_t* last)
+{
+    struct pipe_thread_t* item;
+    void* ret;
+
+    while (pPipeThreads != last) {
+
+        item = pPipeThreads;
+        pPipeThreads = item->previous;
+
+        pBat_WaitForThread(&item->thread, &ret);
+        pBat_CloseThread(&item->thread);
+
+        free(item);
+
+    }
+}
+
+void pBat_WaitForPipeThreads(void)
+{
+    pBat_WaitForPipeThreadsUntil(NULL);
+}
+
 /* Tell if a command is a lookahead command, that is to say a command that
    automatically swallows every operators on the right hand side of the line */
 static int pBat_IsLookAHead(ESTR* cmd)
@@ -119,7 +165,6 @@ static int pBat_IsLookAHead(ESTR* cmd)
 int pBat_ExecOperators(PARSED_LINE** lpLine)
 {
     int pipedes[2];
-    THREAD res;
     struct pipe_launch_data_t* infos;
     PARSED_LINE* line=*lpLine;
     int status = 0,
@@ -189,8 +234,8 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
             pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()", -1);
 
-        res = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
-        pBat_CloseThread(&res);
+        pBat_PushPipeThread(
+            pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos));
 
         lastin = pipedes[0];
         if (line->lppsNode)
@@ -335,6 +380,7 @@ int pBat_RunLine(ESTR* lpLine)
 void pBat_RunParsedLine(PARSED_LINE* line)
 {
 	int lock, ok;
+	struct pipe_thread_t* last = pPipeThreads;
 
 	/* loop though operators */
 	do {
@@ -351,6 +397,7 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 
             lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
             pBat_SetStreamStackLockState(lppsStreamStack, lock);
+            pBat_WaitForPipeThreadsUntil(last);
 
             if (bAbortCommand)
                 break;
@@ -382,6 +429,9 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 		lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, lock);
 
+		/* what is on the left of a pipe must be over before going on */
+		pBat_WaitForPipeThreadsUntil(last);
+
 	} while (line && (line=line->lppsNode)
              && !(ok & EXECOPERATORS_END));
 
diff --git a/pbat/core/pBat_Run.h b/pbat/core/pBat_Run.h
index e85a8d6..7d5d7e1 100644
--- a/pbat/core/pBat_Run.h
+++ b/pbat/core/pBat_Run.h
@@ -56,6 +56,9 @@ int pBat_RunCommand(ESTR* lpCommand, PARSED_LINE** lpplLine);
 /* Run a line */
 int pBat_RunLine(ESTR* lpLine);
 
+/* Wait for what is still running on the left of the current pipes */
+void pBat_WaitForPipeThreads(void);
+
 /* Run a line already parsed */
 void pBat_RunParsedLine(PARSED_LINE* lppsLine);
 
-- 
2.43.0


From 2f8e645f10fba16e397dbda3b369803e0504c3c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 061/143] fix: a nested IF or FOR swallows the operators of the
 line like the outer one

---
 pbat/core/pBat_Run.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index fcdd96b..a6e66db 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -888,9 +888,17 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
         }
     }
 
-    pBat_EsCpy(cmd, "(");
-	pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
-    pBat_EsCat(cmd, ")");
+    pBat_EsCpyN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
+
+    /* A nested lookahead command swallows the operators too, unless it is
+       enclosed in a block */
+    if (*(block->lpBegin - 1) == '(' || !pBat_IsLookAHead(cmd)) {
+
+        pBat_EsCpy(cmd, "(");
+        pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
+        pBat_EsCat(cmd, ")");
+
+    }
 
     if (lookahead->lpCmdLine)
         pBat_EsFree_Cached(lookahead->lpCmdLine);
-- 
2.43.0


From 26094339ad88ab4a1f91a85964ca7d2cde4c8b61 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 062/143] fix: parameters of external programs are expanded
 once

---
 pbat/core/pBat_Args.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 83ab27f..d4d0026 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -303,9 +303,7 @@ struct PARAMLIST* pBat_GetParamList(char* lpLine)
         }
 
         next->next = NULL;
-        next->param = lpParam;
-
-		pBat_DelayedExpand(lpParam);
+        next->param = lpParam; /* delayed expansion has already been done */
 
 		lpParam=pBat_EsInit_Cached();
 
-- 
2.43.0


From cd52866254c5888c9f42152ea6e67dd80f81adf7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 063/143] fix: SHIFT /7 was refused

---
 pbat/command/pBat_Shift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index cfad794..fdd5ace 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -76,6 +76,7 @@ int pBat_CmdShift(char* lpLine)
 				case '4':
 				case '5':
 				case '6':
+				case '7':
 				case '8':
 				case '9':
 					iBegin=*lpToken-'0'; /* well, we assume that all numbers
-- 
2.43.0


From 40aba1292527beed5651a674ff27f22c9a396b72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 064/143] fix: empty arguments of a script are quoted in %* and
 %+, SHIFT doesn't lose them

---
 pbat/init/pBat_Init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..ccd03f7 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -65,7 +65,7 @@ void pBat_AssignCommandLine(int c, char** argv)
         pBat_EsCpy(lpEsParam, *argv);
         pBat_EsReplace(lpEsParam, "\"", "^\""); /* escape parenthesis */
 
-        if (strpbrk(*argv, delims)) {
+        if (!**argv || strpbrk(*argv, delims)) {
 
             pBat_EsCat(lpEsStr, "\"");
             pBat_EsCatE(lpEsStr, lpEsParam);
-- 
2.43.0


From fd017d804c731d86790e14373df29d585da3456d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 065/143] fix: CALL doesn't lose the empty arguments of %+

---
 pbat/command/pBat_Call.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..800bcc1 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -323,6 +323,10 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
             pBat_EsReplace(lpEsParam, "\t", "^\t");
             pBat_EsReplace(lpEsParam, "\"", "^\"");
 
+            /* do not lose empty parameters */
+            if (!*lpEsParam->str)
+                pBat_EsCat(lpEsCmd, "\"\"");
+
             pBat_EsCatE(lpEsCmd, lpEsParam);
             pBat_EsCat(lpEsCmd, " ");
 
-- 
2.43.0


From 3b858fdbd52b518687c4826d314741d6e1b15ba1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 066/143] fix: %~z and %~a of a missing file don't depend on
 what the stack contains

---
 pbat/core/pBat_Var.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 67b1914..21b9701 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -466,7 +466,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             lpPos=pBat_EsToFullPath(lpRecieve);
 
 
-		stat(lpRecieve->str, &stFileInfo);
+		if (stat(lpRecieve->str, &stFileInfo) == -1)
+            memset(&stFileInfo, 0, sizeof(stFileInfo)); /* no such file */
 
 #if defined WIN32
 		stFileInfo.st_mode=GetFileAttributes(lpRecieve->str);
-- 
2.43.0


From 3f6d8ab881f0bd4dbf67098d9fd4504aec52af1b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 067/143] fix: %~z of files over 2 GB

---
 pbat/core/pBat_Var.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 21b9701..2ff12cf 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -537,7 +537,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 				break;
 
 			case 'z':
-				sprintf(lpBuffer, "%d%c", (int)stFileInfo.st_size, (cFlag[i+1]!=0 ? '\t' : '\0'));
+				sprintf(lpBuffer, "%lld%c", (long long)stFileInfo.st_size, (cFlag[i+1]!=0 ? '\t' : '\0'));
 				pBat_EsCat(lpRecieve, lpBuffer);
 				break;
 
-- 
2.43.0


From 0e94850bc7da9b9f18030c2dc26454f752a60338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 068/143] fix: FOR /L ends at its limit even when the next
 value overflows

---
 pbat/command/pBat_For.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 9f86eb9..8b466db 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -562,6 +562,12 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 		if (bAbortCommand)
 			break;
 
+		/* the next value would be out of range, so that it is beyond the
+		   end of the loop */
+		if (iLoopInfo[PBAT_FORL_INC] > 0
+            && i > INT_MAX - iLoopInfo[PBAT_FORL_INC])
+			break;
+
 	}
 
 	pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
-- 
2.43.0


From c3454c95b0dcb49cbb34c18d071c4dcb75100532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 069/143] fix: FOR /R and /D with blanks in names, or without a
 folder

---
 pbat/command/pBat_For.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8b466db..af4a95b 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1619,17 +1619,35 @@ int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute,
 	};
 
 	ESTR* lpCommandLine=pBat_EsInit_Cached();
+	ESTR* lpParam=pBat_EsInit_Cached();
+	char* lpToken=pBat_EsToChar(lpMask);
 
 	/* create equivalent for loop using for / */
 	pBat_EsCpy(lpCommandLine, "'DIR /b /s ");
 	pBat_EsCat(lpCommandLine, lpAttribute);
-	pBat_EsCat(lpCommandLine, " ");
 	pBat_Canonicalize(lpDir->str);
-	pBat_EsCatE(lpCommandLine, lpDir);
-	pBat_EsCat(lpCommandLine, "/");
-	pBat_EsCatE(lpCommandLine, lpMask);
+
+	while ((lpToken = pBat_GetNextParameterEs(lpToken, lpParam))) {
+
+		/* both the folder and the mask may contain blanks */
+		pBat_EsCat(lpCommandLine, " \"");
+
+		if (*pBat_EsToChar(lpDir)) {
+
+			pBat_EsCatE(lpCommandLine, lpDir);
+			pBat_EsCat(lpCommandLine, "/");
+
+		}
+
+		pBat_EsCatE(lpCommandLine, lpParam);
+		pBat_EsCat(lpCommandLine, "\"");
+
+	}
+
 	pBat_EsCat(lpCommandLine, "'");
 
+	pBat_EsFree_Cached(lpParam);
+
 	if (pBat_CmdForF(lpCommandLine, lpplLine, &forInfo))
 		goto error;
 
-- 
2.43.0


From b520917b7820e4d1ffae830d2260a33e832d984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 070/143] fix: FOR sorts folders out on their attributes, not
 on uninitialised memory

---
 pbat/command/pBat_For.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index af4a95b..c30fb0f 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -451,8 +451,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
                 /* We came across a reg expression, just launch a search */
                 files = pBat_GetMatchFileList(pBat_EsToFullPath(lpesStr),
-                                                PBAT_SEARCH_NO_PSEUDO_DIR
-                                                | PBAT_SEARCH_NO_STAT);
+                                                PBAT_SEARCH_NO_PSEUDO_DIR);
 
                 pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                              files,
-- 
2.43.0


From c7ed91db6b70d2020c277609ec5e4aad222138bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 071/143] fix: FOR does not loop for ever on a colon between
 elements

---
 pbat/command/pBat_For.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index c30fb0f..df8f9fd 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -387,7 +387,9 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
              *item = NULL;
 
 	while ((files != NULL)
-           || (lpToken != NULL && pBat_GetParameterPointers(&lpBegin, &lpToken,
+           || (lpToken != NULL
+               && (lpToken += strspn(lpToken, " ,:;\n\t"))
+               && pBat_GetParameterPointers(&lpBegin, &lpToken,
                                                     lpDelimiters, lpToken))) {
 
         if (files != NULL) {
-- 
2.43.0


From 9be0980ef9fa9b28aae48184202f70024934eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 072/143] fix: FOR /F does not skip empty lines

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index df8f9fd..9b68854 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -605,7 +605,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 		} else {
 
             /* If the line starts with one of the EOL characters, just skip it */
-            if ((lpfrInfo->lpEol[0] != '\0')
+            if ((*(lpInputToP->str) != '\0')
                 && (strchr(lpfrInfo->lpEol, *(lpInputToP->str))))
                 continue;
 
-- 
2.43.0


From 1fd3f3ccbf74277ae414e5fe704921cbf4fff545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 073/143] fix: FOR /F checks and frees all of its variables

---
 pbat/command/pBat_For.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 9b68854..8eec452 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1157,37 +1157,35 @@ void pBat_ForGetToken(ESTR* lpContent, FORINFO* lpfrInfo, int iPos, ESTR* lpRetu
 
 void pBat_ForVarUnassign(FORINFO* lpfrInfo)
 {
-	int i,
-	    iMax=lpfrInfo->iTokenNb;
+	int i;
 	char cVarName=lpfrInfo->cFirstVar;
 
-	for (i=0; i<iMax; i++) {
+	for (i=0; i<lpfrInfo->iTokenNb; i++) {
 
-		pBat_SetLocalVar(lpvLocalVars, cVarName+i, NULL);
+		pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
 
-		if ((cVarName+i) & 0x80)
-			break;
+		if ((++cVarName) & 0x80)
+			cVarName=0x21;
 	}
 }
 
 int pBat_ForVarCheckAssignment(FORINFO* lpfrInfo)
 {
-	int i,
-	    iMax=lpfrInfo->iTokenNb;
+	int i;
 	char cVarName=lpfrInfo->cFirstVar;
 
-	for (i=0; i<iMax; i++) {
+	for (i=0; i<lpfrInfo->iTokenNb; i++) {
 
 		if ((pBat_GetLocalVarPointer(lpvLocalVars, cVarName))) {
 
 			pBat_ShowErrorMessage(PBAT_FOR_TRY_REASSIGN_VAR,
-                                        (char*)(cVarName), FALSE);
+                                        (char*)(size_t)(cVarName), FALSE);
 			return PBAT_FOR_TRY_REASSIGN_VAR;
 
 		}
 
-		if (cVarName & 0x80)
-			break;
+		if ((++cVarName) & 0x80)
+			cVarName=0x21;
 	}
 
 	return PBAT_NO_ERROR;
-- 
2.43.0


From 9a98b89f65adf30e973f3caafab161a50f6f4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 074/143] fix: FOR /F closes each of its files and survives a
 missing one

---
 pbat/command/pBat_For.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8eec452..d337248 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1452,7 +1452,6 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo)
 
 	int iReturn=0;
 	char* lpToken;
-	char name[FILENAME_MAX];
 
 loop_begin:
     iReturn=0;
@@ -1475,13 +1474,17 @@ retry:
                 }
 
                 /* if the file list is not finished, then, open the next file */
+                fclose(lpipInfo->Info.InputFile.pFile);
+
                 if (!(lpipInfo->Info.InputFile.pFile =
                         fopen(lpipInfo->Info.InputFile.lpesFiles[
                             		lpipInfo->Info.InputFile.index
                             	]->str, "rb"))) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            name,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                                lpipInfo->Info.InputFile.index
+                            ]->str,
                             FALSE
                             );
 
@@ -1580,7 +1583,8 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 
 		case INPUTINFO_TYPE_STREAM:
 
-            fclose(lpipInfo->Info.InputFile.pFile);
+            if (lpipInfo->Info.InputFile.pFile)
+                fclose(lpipInfo->Info.InputFile.pFile);
 
 			while(lpipInfo->Info.InputFile.lpesFiles[i] != NULL) {
 
-- 
2.43.0


From a28f0673af4c8d603dd8d2942b40cd463e7ae14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 075/143] fix: nested blocks may be followed by blanks

---
 pbat/core/pBat_Run.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index a6e66db..2e05a7e 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -595,6 +595,10 @@ int pBat_RunBlock(BLOCKINFO* lpbkInfo)
             if (*lpBlockEnd == '&' || *lpBlockEnd == '|')
                 lpBlockEnd ++;
 
+            /* a block may be followed by blanks up to the end of its line */
+            while (*lpBlockEnd == ' ' || *lpBlockEnd == '\t')
+                lpBlockEnd ++;
+
         } while (*lpBlockEnd != '\0' && *lpBlockEnd != '\n'
                     && *lpBlockEnd != ')');
 
-- 
2.43.0


From dcd0b8dcb40180484f333c4408ef019c444280b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 076/143] fix: flush the output before a redirection truncates
 its file

---
 pbat/core/pBat_Stream.c | 60 ++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 08d3bd8..e96c624 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -120,20 +120,24 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
 
     }
 
-    /* Note that cmd.exe implements a mechanism to create path
+    /* Note that cmd.exe implements a mechanism to create path
        that do not exist (eg. > a/b/c.txt creates a/b/ tree)
-       upon opening of the file. This is not implemented yet. */
-
-    /* Serialize this with pBat_RunFile() */
+       upon opening of the file. This is not implemented yet. */
+
+    /* Serialize this with pBat_RunFile() */
     PBAT_RUNFILE_LOCK();
 
+    /* what was printed so far precedes the truncation of the file */
+    fflush(fOutput);
+    fflush(fError);
+
     if ((newfd = open(name, fmode, S_IREAD | S_IWRITE)) == -1) {
-
+
         pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
                                 name, 0);
-        free(item);
+        free(item);
         item = stack;
-        goto error;
+        goto error;
 
     }
 
@@ -168,8 +172,8 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
 
     default:;
     }
-
-error:
+
+error:
     PBAT_RUNFILE_RELEASE();
     return item;
 }
@@ -190,9 +194,9 @@ STREAMSTACK* pBat_OpenOutputD(STREAMSTACK* stack, int newfd, int fd)
     item->lock = 0;
     item->fd = fd;
     item->subst = PBAT_GET_SUBST();
-
-    /* Serialize this with pBat_RunFile() */
-    PBAT_RUNFILE_LOCK();
+
+    /* Serialize this with pBat_RunFile() */
+    PBAT_RUNFILE_LOCK();
 
     /* do not forget to update the standard thread specific streams */
     switch (fd) {
@@ -214,8 +218,8 @@ STREAMSTACK* pBat_OpenOutputD(STREAMSTACK* stack, int newfd, int fd)
 
     default:;
     }
-
-    PBAT_RUNFILE_RELEASE();
+
+    PBAT_RUNFILE_RELEASE();
 
     return item;
 }
@@ -230,9 +234,9 @@ STREAMSTACK* pBat_PopStreamStack(STREAMSTACK* stack)
         return stack;
 
     item = stack->previous;
-
-    /* Serialize this with pBat_RunFile() */
-    PBAT_RUNFILE_LOCK();
+
+    /* Serialize this with pBat_RunFile() */
+    PBAT_RUNFILE_LOCK();
 
     switch (stack->fd) {
 
@@ -252,8 +256,8 @@ STREAMSTACK* pBat_PopStreamStack(STREAMSTACK* stack)
         break;
 
     default:;
-    }
-
+    }
+
     PBAT_RUNFILE_RELEASE();
 
     PBAT_APPLY_SUBST(stack->subst);
@@ -272,9 +276,9 @@ STREAMSTACK* pBat_PopStreamStackUntilLock(STREAMSTACK* stack)
 }
 
 void pBat_ApplyStreams(STREAMSTACK* stack)
-{
-    /* Serialize this with pBat_RunFile() */
-    PBAT_RUNFILE_LOCK();
+{
+    /* Serialize this with pBat_RunFile() */
+    PBAT_RUNFILE_LOCK();
 
     /* simple fast method */
     PBAT_XDUP(fdStdin, stdin);
@@ -284,19 +288,19 @@ void pBat_ApplyStreams(STREAMSTACK* stack)
     PBAT_DUP_STDIN(fileno(fInput), stdin);
     PBAT_DUP_STD(fileno(fOutput), stdout);
     PBAT_DUP_STD(fileno(fError), stderr);
-
+
     PBAT_RUNFILE_RELEASE();
 }
 
 void pBat_UnApplyStreams(STREAMSTACK* stack)
 {
-    /* Serialize this with pBat_RunFile() */
-    PBAT_RUNFILE_LOCK();
-
+    /* Serialize this with pBat_RunFile() */
+    PBAT_RUNFILE_LOCK();
+
     PBAT_DUP_STDIN(fdStdin, stdin);
     PBAT_DUP_STD(fdStdout, stdout);
-    PBAT_DUP_STD(fdStderr, stderr);
-
+    PBAT_DUP_STD(fdStderr, stderr);
+
     PBAT_RUNFILE_RELEASE();
 
     close(fdStdout);
-- 
2.43.0


From a613e895446668bc08903e3f9c960c0a025370ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 077/143] fix: a redirection within merged outputs leaves the
 other output where it was

---
 pbat/core/pBat_Run.c    |  4 ++--
 pbat/core/pBat_Stream.c | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 2e05a7e..096b0dc 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -339,7 +339,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1,
 		                -1
 		               );
-        fError = _fOutput;
+        fError = fOutput;
         break;
 
     case PARSED_STREAM_STDOUT2STDERR:
@@ -347,7 +347,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1 ,
 		                -1
 		               );
-        fOutput = _fError;
+        fOutput = fError;
 
     }
 
diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index e96c624..39a81bf 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -93,12 +93,33 @@ static FILE* pBat_OpenInput(int fd)
     return stream;
 }
 
+/* When both outputs are merged, they share a single stream. Before this stream
+   is redirected, give the other output a stream that keeps its destination */
+static STREAMSTACK* pBat_SplitOutputs(STREAMSTACK* stack, int fd)
+{
+    if (fd == PBAT_STDOUT && fError == _fOutput) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fOutput), PBAT_STDERR);
+        fError = _fError;
+
+    } else if (fd == PBAT_STDERR && fOutput == _fError) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fError), PBAT_STDOUT);
+        fOutput = _fOutput;
+
+    }
+
+    return stack;
+}
+
 /* Duplicate file based on a file name or a file descriptor */
 STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
 {
     int newfd, fmode;
     STREAMSTACK* item;
 
+    stack = pBat_SplitOutputs(stack, fd);
+
     /* try to malloc a new stack item */
     if (!(item = malloc(sizeof(STREAMSTACK))))
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION
-- 
2.43.0


From a2d91b620bb25950655667b824edeb31b697dfad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 078/143] fix: what the interpreter wrote precedes the output
 of a program when outputs are merged

---
 pbat/core/pBat_Exec.c   | 8 ++++----
 pbat/core/pBat_Stream.c | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 6eb8242..c3895a8 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -293,8 +293,8 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	/* what has been written so far comes before the output of the child,
 	   and must not be written by the child too */
-	fflush(fOutput);
-	fflush(fError);
+	fflush(_fOutput); /* whichever of them is in use */
+	fflush(_fError);
 	fflush(fInput); /* the child shall read what has only been read ahead */
 
 	iPid=fork();
@@ -557,8 +557,8 @@ int pBat_StartFile(EXECINFO* info, int* error)
 
     /* what has been written so far comes before the output of the child,
        and must not be written by the child too */
-    fflush(fOutput);
-    fflush(fError);
+    fflush(_fOutput); /* whichever of them is in use */
+    fflush(_fError);
     fflush(fInput); /* the child shall read what has only been read ahead */
 
     pid = fork();
diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 39a81bf..77044ff 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -149,8 +149,8 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     PBAT_RUNFILE_LOCK();
 
     /* what was printed so far precedes the truncation of the file */
-    fflush(fOutput);
-    fflush(fError);
+    fflush(_fOutput);
+    fflush(_fError);
 
     if ((newfd = open(name, fmode, S_IREAD | S_IWRITE)) == -1) {
 
-- 
2.43.0


From 7d423d2bd78cc99debf8d65101446277f8a98984 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 079/143] fix: GOTO looks for the colon of its label after
 expansion

---
 pbat/command/pBat_Goto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Goto.c b/pbat/command/pBat_Goto.c
index 1b97add..cd167ff 100644
--- a/pbat/command/pBat_Goto.c
+++ b/pbat/command/pBat_Goto.c
@@ -91,7 +91,7 @@ int pBat_CmdGoto(char* lpLine)
 
     pBat_GetEndOfLine(lpLine, arg);
 
-    switch (*lpLine) {
+    switch (*(arg->str)) {
 
     case ':':
         snprintf(lpLabelName, sizeof(lpLabelName), "%s", arg->str);
-- 
2.43.0


From c8f160db3c38a88dbf91013c9bf50e9280b63f62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 080/143] fix: a script that calls itself starts from its first
 line

---
 pbat/command/pBat_Call.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 800bcc1..b68315d 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -269,6 +269,11 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		ifIn.bEof=FALSE;          /* the file is not at EOF */
 		ifIn.iPos=0;              /* places the cursor at the origin */
+
+		/* a script that calls itself is not loaded again, but starts over */
+		if (!strcmp(ifIn.batch.name, lpAbsPath))
+			ifIn.batch.curr = ifIn.batch.cmds;
+
 		snprintf(ifIn.lpFileName,
 		         sizeof(ifIn.lpFileName),
 		         "%s",
-- 
2.43.0


From 20cb9c6431206f8765103a838e193ca88c5b8443 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 081/143] fix: EXIT within a called script or label does not
 abort

---
 pbat/command/pBat_Call.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index b68315d..a5c97c6 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -234,9 +234,9 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 {
 	INPUT_FILE ifOldFile;
 	LOCAL_VAR_BLOCK* lpvOldBlock;
-	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpBlock=pBat_GetLocalBlock();
 	LOCAL_VAR_BLOCK* lpvOldArgs;
-	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpArgs=pBat_GetLocalBlock();
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
 
@@ -246,6 +246,11 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	int   c='1',
 	      iLockState;
 
+    /* these blocks are freed by pBat_Exit() if the called script exits */
+    if (lpvTmpBlock == NULL || lpvTmpArgs == NULL)
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_CmdCallFile()", -1);
+
     if (lpFile != NULL
         && pBat_GetFileFullPath(lpAbsPath, lpFile, sizeof(lpAbsPath))==-1) {
 
@@ -377,20 +382,6 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
 
-	/* free variables that have been allocated while
-	   executing the batch script (or the function) */
-
-	for (c=0; c < LOCAL_VAR_BLOCK_SIZE; c++) {
-
-        if (pBat_IsLocalVarValid(c)) {
-            /* This is really important to prevent any kind of memory
-               leakage */
-
-            pBat_SetLocalVar(lpvLocalVars, c, NULL);
-            pBat_SetLocalVar(lpvArguments, c, NULL);
-        }
-	}
-
 	/* free the newly allocated batch script */
     pBat_FreeBatchScript(&(ifIn.batch));
 
@@ -401,6 +392,11 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	lpvArguments = lpvOldArgs;
 
 error:
+	/* free variables that have been allocated while
+	   executing the batch script (or the function) */
+	pBat_FreeLocalBlock(lpvTmpBlock);
+	pBat_FreeLocalBlock(lpvTmpArgs);
+
 	pBat_EsFree_Cached(lpEsParam);
 	return status ? status : iErrorLevel; /* do not affect errorlevel */
 }
-- 
2.43.0


From 7a072085f9a2caad8b33ca6510f8c6d4fd0afbb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 082/143] fix: ENDLOCAL in a called script reverts only what
 was set local since the call

---
 pbat/command/pBat_Call.c  | 6 ++++++
 pbat/core/pBat_EnvStack.c | 3 ++-
 pbat/core/pBat_Globals.c  | 3 +++
 pbat/core/pBat_Globals.h  | 1 +
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index a5c97c6..7b3e200 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -237,6 +237,7 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	LOCAL_VAR_BLOCK* lpvTmpBlock=pBat_GetLocalBlock();
 	LOCAL_VAR_BLOCK* lpvOldArgs;
 	LOCAL_VAR_BLOCK* lpvTmpArgs=pBat_GetLocalBlock();
+	ENVSTACK* lpesOldCall;
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
 
@@ -374,8 +375,13 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	/* run the  command */
 
+	lpesOldCall = lpesCall;
+	lpesCall = lpesEnv;
+
 	pBat_RunBatch(&ifIn);
 
+	lpesCall = lpesOldCall;
+
     bAbortCommand=FALSE;
 
 	/* restore the stream stack */
diff --git a/pbat/core/pBat_EnvStack.c b/pbat/core/pBat_EnvStack.c
index 7c95f98..b982114 100644
--- a/pbat/core/pBat_EnvStack.c
+++ b/pbat/core/pBat_EnvStack.c
@@ -44,7 +44,8 @@ void pBat_PopEnvStack(void)
 {
     ENVSTACK* item;
 
-    if (lpesEnv == NULL)
+    /* what was saved before the current CALL is out of scope */
+    if (lpesEnv == NULL || lpesEnv == lpesCall)
         return;
 
     item = lpesEnv;
diff --git a/pbat/core/pBat_Globals.c b/pbat/core/pBat_Globals.c
index 6bb20d6..047c1a9 100644
--- a/pbat/core/pBat_Globals.c
+++ b/pbat/core/pBat_Globals.c
@@ -86,6 +86,9 @@ __thread FILE *fError, *_fError; /* current thread error stream */
 
 __thread ENVBUF* lpeEnv;
 __thread ENVSTACK* lpesEnv = NULL;
+
+/* the top of that stack when the current CALL was made */
+__thread ENVSTACK* lpesCall = NULL;
 __thread INPUT_FILE ifIn;
 __thread char lpCurrentDir[FILENAME_MAX];
 __thread ESTRCACHE ecEstrCache; /* ESTR cache */
diff --git a/pbat/core/pBat_Globals.h b/pbat/core/pBat_Globals.h
index 86f6248..b3207d8 100644
--- a/pbat/core/pBat_Globals.h
+++ b/pbat/core/pBat_Globals.h
@@ -77,6 +77,7 @@ extern __thread FILE *fInput; /* current thread input stream */
 extern __thread FILE *fOutput, *_fOutput; /* current thread output stream */
 extern __thread FILE *fError, *_fError; /* current thread error stream */
 extern __thread ENVSTACK* lpesEnv;
+extern __thread ENVSTACK* lpesCall;
 extern __thread char lpCurrentDir[FILENAME_MAX]; /* current path */
 extern __thread ESTRCACHE ecEstrCache; /* ESTR cache */
 
-- 
2.43.0


From 142d5e0b3058e658cd830e7b2766ea7ea56df24a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 083/143] fix: the parameters of a procedure are inserted as
 they are, all at once

---
 pbat/core/pBat_ExpandDef.c | 57 +++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/pbat/core/pBat_ExpandDef.c b/pbat/core/pBat_ExpandDef.c
index 77a46b8..fd6110a 100644
--- a/pbat/core/pBat_ExpandDef.c
+++ b/pbat/core/pBat_ExpandDef.c
@@ -27,29 +27,60 @@
 void pBat_ExpandDef(ESTR* lpRet, char* lpCh, char* lpExp)
 {
     int i;
-    char var[]="$1";
+    char *lpSym,
+         *lpCopy;
     ESTR *restrict ret=pBat_EsInit_Cached(),
-        *restrict param=pBat_EsInit_Cached();
-
-    pBat_EsCpy(ret, lpExp);
+        *restrict all=pBat_EsInit_Cached(),
+        *param[9],
+        *buf[2] = {pBat_EsInit_Cached(), pBat_EsInit_Cached()};
 
+    /* The body has its own loop variables, so that those of the caller have
+       to be expanded now */
     lpCh = pBat_SkipBlanks(lpCh);
-    pBat_EsReplace(ret, "$*", lpCh);
+    pBat_EsCpy(all, lpCh);
+    pBat_ExpandSpecialVar(all, buf);
 
-    for (i = 1; i <= 10; i++) {
+    for (i = 0; i < 9; i++) {
 
-        var[1] = '0' + i;
+        param[i] = pBat_EsInit_Cached();
 
-        if (lpCh
-            && (lpCh = pBat_GetNextParameterEs(lpCh, param)))
-            pBat_EsReplace(ret, var, param->str);
-        else
-            pBat_EsReplace(ret, var, "");
+        if (!lpCh
+            || !(lpCh = pBat_GetNextParameterEs(lpCh, param[i])))
+            pBat_EsCpy(param[i], "");
     }
 
+    /* Substitute all the symbols at once, because parameters may contain
+       something that looks like a symbol */
+    *(ret->str) = '\0';
+
+    while ((lpSym = strchr(lpExp, '$'))) {
+
+        lpCopy = lpSym + 1;
+
+        if (*lpCopy != '*' && (*lpCopy < '1' || *lpCopy > '9')) {
+
+            /* this is not a symbol */
+            pBat_EsCatN(ret, lpExp, lpCopy - lpExp);
+            lpExp = lpCopy;
+            continue;
+
+        }
+
+        pBat_EsCatN(ret, lpExp, lpSym - lpExp);
+        pBat_EsCatE(ret, *lpCopy == '*' ? all : param[*lpCopy - '1']);
+        lpExp = lpCopy + 1;
+
+    }
+
+    pBat_EsCat(ret, lpExp);
     pBat_EsCpyE(lpRet, ret);
 
+    for (i = 0; i < 9; i++)
+        pBat_EsFree_Cached(param[i]);
+
+    pBat_EsFree_Cached(buf[0]);
+    pBat_EsFree_Cached(buf[1]);
+    pBat_EsFree_Cached(all);
     pBat_EsFree_Cached(ret);
-    pBat_EsFree_Cached(param);
 
 }
-- 
2.43.0


From 5e07e7444b7733f6805c6d76a7cbfc881d2b00c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 084/143] fix: SET /X lets only the previous context inherit
 the variable

---
 pbat/core/pBat_Env.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 494323b..e104214 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -586,12 +586,16 @@ void pBat_PushEnvLocals(ENVBUF *pEnv)
                 (*pVar)->content = NULL; \
                 sort = 1; \
             } \
+\
+            /* it is inherited by the previous context only */ \
+            (*pVar)->inherit = 0; \
 \
         } else if ((*pVar)->inherit) {\
 \
             /* We need to inherit the current variable */\
 \
             (*pVar)->previous = pOld->previous;\
+            (*pVar)->inherit = pOld->inherit;\
             free(pOld->name);\
             free(pOld->content);\
             free(pOld);\
-- 
2.43.0


From 9b1937a94d5cf1afed2d643d3a90246e6ea7cfbd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 085/143] fix: SET lists the variables of a prefix followed by
 blanks

---
 pbat/command/pBat_Set.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 34bc654..56277b0 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -192,6 +192,7 @@ int pBat_CmdSet(char *lpLine)
 	if (nok == 1) {
 
 		lpLine = pBat_SkipBlanks(lpLine+3);
+		pBat_AdjustVarName(lpLine); /* names have no trailing blanks */
 
 		/* if a variable have been found,
 		   this variable vary usually
-- 
2.43.0


From 584bb1c5c5e15f744362394137753ab3c741708e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 086/143] fix: SETLOCAL CMDLYCORRECT does not start the script
 over

---
 pbat/core/pBat_Jump.c |  2 +-
 pbat/core/pBat_Read.c | 12 +++++++++++-
 pbat/core/pBat_Read.h |  1 +
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 417b5e6..72dc988 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -41,7 +41,7 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
         || (*(ifIn.lpFileName) == '\0' && lpFileName == NULL))
         return -1;
 
-    if (bCmdlyCorrect)
+    if (pBat_IsCmdlyInput(&ifIn))
         return pBat_JumpToLabel_Cmdly(lpLabelName, lpFileName);
 
 	if (lpFileName && stricmp(ifIn.batch.name, lpFileName)) {
diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 2b1814f..b2e52c8 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -86,6 +86,16 @@ error:
 
 }
 
+/* Tell if the input is read in the cmdly correct way. A script can not switch
+   from one way to the other once it has been started, because each way keeps
+   track of its own position */
+int pBat_IsCmdlyInput(INPUT_FILE* pIn)
+{
+    return *(pIn->lpFileName) == '\0'
+            || pIn->iPos != 0
+            || (bCmdlyCorrect && *(pIn->batch.name) == '\0');
+}
+
 int pBat_GetLine(ESTR* lpesLine, INPUT_FILE* pIn)
 {
     int  ok;
@@ -94,7 +104,7 @@ int pBat_GetLine(ESTR* lpesLine, INPUT_FILE* pIn)
 
     /* If either cmdly correct is defined or if we are running interactive
        mode, use the cmdly correct function */
-    if (bCmdlyCorrect || (*(pIn->lpFileName) == '\0'))
+    if (pBat_IsCmdlyInput(pIn))
         return pBat_GetLine_Cmdly(lpesLine, pIn);
 
 
diff --git a/pbat/core/pBat_Read.h b/pbat/core/pBat_Read.h
index 49c731b..4bf3bda 100644
--- a/pbat/core/pBat_Read.h
+++ b/pbat/core/pBat_Read.h
@@ -34,6 +34,7 @@ typedef struct INPUT_FILE {
 
 int pBat_GetLine(ESTR* lpesLine, INPUT_FILE* pIn);
 int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn);
+int pBat_IsCmdlyInput(INPUT_FILE* pIn);
 int pBat_CheckBlocks(ESTR* lpesLine);
 void pBat_RmTrailingNl(char* lpLine);
 
-- 
2.43.0


From 5a9bfa7dc9bbad8cb4f969ecb4e9861532a4913e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 087/143] fix: DEF /F redefines the command of that name, not
 one whose name is its beginning

---
 libpbat/cmdlist/pBat_CmdList.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 7963c12..2c4d914 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -284,6 +284,11 @@ LIBPBAT int				pBat_ReplaceCommand(LPCOMMANDINFO lpciCommand, LPCOMMANDLIST lpcl
                       lpclCommandList->ptrCommandName,
                       lpclCommandList->iLenght);
 
+        /* the name of the command may only be the beginning of the one
+           to be replaced, which pBat_GetCommandProc() then refuses too */
+        if (!iRet && (lpclCommandList->cfFlag & ~PBAT_COMMAND_FLAGS))
+            iRet=stricmp(lpCommandLine, lpclCommandList->ptrCommandName);
+
         if (iRet>0) {
 
            lpclCommandList=lpclCommandList->lpclRightRoot;
-- 
2.43.0


From 95cc3557f54b40920abb444abb429cdec605fed6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 088/143] fix: DEL /A keeps the read-only files without /F

---
 pbat/command/pBat_Del.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index bd03a2e..ebe7cff 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -239,7 +239,7 @@ int pBat_CmdDel(char* lpLine)
     while (end) {
 
         if (!(param & PBAT_DELETE_READONLY)
-            && (pBat_GetFileMode(end) & PBAT_FILE_READONLY)) {
+            && pBat_CheckFileAttributes(PBAT_ATTR_READONLY, end)) {
 
             /* Skip read-only files if the user did not specified 'force' */
             end = end->lpflNext;
-- 
2.43.0


From be694ac0352447c15e11ebaf81b08957ae047c9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 089/143] fix: RD /S does not delete a file given instead of a
 directory

---
 pbat/command/pBat_Rmdir.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 520b459..01ca6ee 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -166,6 +166,17 @@ int pBat_CmdRmdir(char* lpLine)
 
         for (i=0; i < n; i++) {
 
+            if ((mode & PBAT_SEARCH_RECURSIVE)
+                && pBat_FileExists(name[i])) {
+
+                /* this is about directories, files are only removed along
+                   with the one they are in */
+                pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR, name[i], FALSE);
+                status |= PBAT_UNABLE_RMDIR;
+                continue;
+
+            }
+
             if (!(dir = pBat_GetMatchFileList(name[i], mode))) {
 
                 pBat_ShowErrorMessage(PBAT_NO_MATCH,
-- 
2.43.0


From a9a5c1ead1e9cfa22647571f17d375c9d7d870ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 090/143] fix: COPY concatenates when the first file is
 read-only

---
 pbat/command/pBat_Copy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index f42528e..ec3b29d 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -703,7 +703,8 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
     }
 
-    new = open(dest, attr, info.st_mode);
+    /* the following files have to be appended, even if this one is read-only */
+    new = open(dest, attr, info.st_mode | S_IWUSR);
 
     if (new == -1) {
 
-- 
2.43.0


From 6f383d16a2cb3a8b2f14919e6730f8e7dc3c1dd8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 091/143] fix: REN does not overwrite an existing file

---
 pbat/command/pBat_Ren.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index 2077b36..2c5cd46 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -108,7 +108,13 @@ int pBat_CmdRen(char* lpLine)
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
 
-			if (rename(lpFileName, lpFileDest)) {
+			if (
+#ifndef WIN32
+			    /* only windows refuses to rename on an existing file */
+			    ((pBat_FileExists(lpFileDest) || pBat_DirExists(lpFileDest))
+			     && strcmp(lpFileName, lpFileDest)) ||
+#endif
+			    rename(lpFileName, lpFileDest)) {
 
 				pBat_ShowErrorMessage(PBAT_UNABLE_RENAME, lpFileName, FALSE);
 				pBat_EsFree_Cached(lpEstr);
-- 
2.43.0


From d8beb17e512f440a8943ad7c99726aaa00a68453 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 092/143] fix: COPY /R and MOVE /R create the directories they
 copy files to

---
 pbat/command/pBat_Copy.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index ec3b29d..9ace6e7 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -438,6 +438,29 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
     return status;
 }
 
+/* Create the directory where a file is to be copied */
+static int pBat_CmdMakeParent(char* path)
+{
+    char *end = path + strlen(path),
+         c;
+
+    int status = PBAT_NO_ERROR;
+
+    while (end != path && !IS_DIR_DELIM(*end))
+        end --;
+
+    if (end != path) {
+
+        c = *end;
+        *end = '\0';
+        status = pBat_CmdMakeDirs(path);
+        *end = c;
+
+    }
+
+    return status;
+}
+
 int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 {
     FILELIST *files=NULL,
@@ -496,6 +519,9 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
     while (item) {
 
         pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size));
+
+        /* it may not be in the list, for instance if there are only files */
+        status |= pBat_CmdMakeParent(real_dest->str);
         status |= pBat_CmdCopyFile(item->lpFileName, real_dest->str, flags);
 
         item = item->lpflNext;
-- 
2.43.0


From 5654015f8564a4cfb5ebc0089775594be072e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 093/143] fix: CD without a path ends the folder it displays
 with a newline

---
 pbat/command/pBat_Cd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 754cd2b..46c5126 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -313,6 +313,7 @@ def:
 	} else {
 
 		fputs(lpCurrentDir, fOutput);
+		fputs(PBAT_NL, fOutput);
 
 	}
 
-- 
2.43.0


From 2bdd698d89a17a6c26f0ef9707a05426921ae538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 094/143] fix: .. next to the root of a path does not drop the
 rest of it

---
 pbat/command/pBat_Cd.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 46c5126..ab24301 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -72,6 +72,9 @@ int __inline__ pBat_Canonicalize(char* path)
 {
     char *previous = NULL, *next, *orig = path;
     size_t size = strlen(path) + 1;
+#ifndef WIN32
+    int absolute = PBAT_TEST_SEPARATOR(path);
+#endif // WIN32
 
     /* If the path is UNC, just skip the very first part */
     if (PBAT_TEST_UNC_PATH(path)) {
@@ -117,15 +120,28 @@ reloop:
                 while (previous >= orig && !PBAT_TEST_SEPARATOR(previous))
                     previous --;
 
-                if (previous < orig) {
+                if (previous < orig
+                    && path != orig
+                    && *(path - 1) != ':') {
 
-                    /* this is not meant to happen unless if .. follows directly the root
-                       remove it then */
-#ifdef WIN32
-                    *path = '\0';
-#else
-                    *(path + 1) = '\0';
-#endif // WIN32
+                    /* the path is relative and its first folder is to be
+                       left, keep it as it is */
+                    path += 3;
+                    continue;
+
+                } else if (path - previous == 3
+                            && *(path - 1) == '.' && *(path - 2) == '.') {
+
+                    /* the preceeding ".." has been kept, keep that one too */
+                    path += 3;
+                    continue;
+
+                } else if (previous < orig) {
+
+                    /* .. follows directly the root, remove it then */
+                    memmove(path, path + 3, size - ((path + 3) - orig));
+                    size -= 3;
+                    continue;
 
                 } else {
 
@@ -150,7 +166,11 @@ reloop:
             path ++;
     }
 
-    /* Wait ... */
+#ifndef WIN32
+    /* only the root remains */
+    if (absolute && *orig == '\0')
+        strcpy(orig, "/");
+#endif // WIN32
 
     return 0;
 }
-- 
2.43.0


From ceef2e2ae1d5cf02d43cbc57088384955da67295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 095/143] fix: CD never leaves the current folder at a name
 that does not exist

---
 pbat/command/pBat_Cd.c | 59 +++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index ab24301..12eaf76 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -177,13 +177,12 @@ reloop:
 
 int pBat_SetCurrentDir(char* lpLine)
 {
-    char *p/*, *p2 = NULL */;
-    size_t remain;
+    char new_dir[FILENAME_MAX];
+    int len;
 
-    if (PBAT_TEST_ABSOLUTE_PATH(lpLine)
-        && pBat_DirExists(lpLine)) {
+    if (PBAT_TEST_ABSOLUTE_PATH(lpLine)) {
 
- #ifdef WIN32
+#ifdef WIN32
         /* Under windows, we do not have unique file system
            root, so that '/' refers to the current active drive, we have
            to deal with it */
@@ -194,46 +193,40 @@ int pBat_SetCurrentDir(char* lpLine)
                unless lpCurrentDir refers to a unc path
                which is still unsupported  */
 
-            strncpy(lpCurrentDir + 2, lpLine, FILENAME_MAX-2);
-            lpCurrentDir[FILENAME_MAX-1] = '\0';
+            len = snprintf(new_dir, sizeof(new_dir), "%.2s%s",
+                                    lpCurrentDir, lpLine);
 
-            return pBat_Canonicalize(lpCurrentDir);
-        }
- #endif
+        } else
+#endif
+            len = snprintf(new_dir, sizeof(new_dir), "%s", lpLine);
 
-        strncpy(lpCurrentDir, lpLine, FILENAME_MAX);
-        lpCurrentDir[FILENAME_MAX - 1] = '\0';
-        return pBat_Canonicalize(lpCurrentDir);
+    } else {
 
-    }
+        len = snprintf(new_dir, sizeof(new_dir), "%s" PBAT_DEF_DELIMITER "%s",
+                                lpCurrentDir, lpLine);
 
-    /* find the end of the current dir */
-    p = lpCurrentDir;
-    while (*p)
-        p ++;
+    }
 
-#ifdef WIN32
-    *p = '\\';
-#else
-    *p = '/';
-#endif
+    if (len < 0 || (size_t)len >= sizeof(new_dir)) {
 
-    remain = FILENAME_MAX - (p + 1 - lpCurrentDir);
+        errno = ENAMETOOLONG;
+        return -1;
 
-    if (remain > 0) {
+    }
 
-        strncpy(p + 1, lpLine, remain);
-        lpCurrentDir[FILENAME_MAX - 1] = '\0';
+    /* The name that is kept must exist too: behind a link, ".." does not
+       always lead where the name says */
+    if (!pBat_DirExists(new_dir)
+        || pBat_Canonicalize(new_dir)
+        || !pBat_DirExists(new_dir)) {
 
-        if (pBat_DirExists(lpCurrentDir))
-            return pBat_Canonicalize(lpCurrentDir);
+        errno = ENOENT;
+        return -1;
 
     }
 
-    *p = '\0';
-
-    errno = ENOENT;
-    return -1;
+    strcpy(lpCurrentDir, new_dir);
+    return 0;
 }
 
 int pBat_CmdCd_nix(char* lpLine)
-- 
2.43.0


From 81452e7928ff898a4c243180471f26a15d74fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 096/143] fix: COPY /R and MOVE /R report the folders they
 cannot read

---
 pbat/command/pBat_Copy.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 9ace6e7..f46fffd 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -509,6 +509,16 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
         pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size));
         status |= pBat_CmdMakeDirs(real_dest->str);
 
+        /* what a directory that cannot be searched holds is not in the list */
+        if (access(item->lpFileName, R_OK)) {
+
+            pBat_ShowErrorMessage(PBAT_UNABLE_COPY | PBAT_PRINT_C_ERROR,
+                                    item->lpFileName, 0);
+
+            status |= PBAT_UNABLE_COPY;
+
+        }
+
         item = item->lpflNext;
 
     }
-- 
2.43.0


From 5a3fce3f066ec5abdf2b7d42e2727d91f70b0f68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 097/143] fix: MORE keeps the blank lines after a line as wide
 as the screen

---
 pbat/command/pBat_More.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 8dabdb0..6c1530b 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -41,6 +41,10 @@
 
 #include "../../config.h"
 
+static __thread int blank=0,
+            cr=0; /* a carriot return was included at the end of
+                     the preceding line */
+
 static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
@@ -248,6 +252,10 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
         ok=1,
         toprint;
 
+    /* these belong to the preceding file */
+    blank = 0;
+    cr = 0;
+
     if (filename) {
 
         if (!(file = fopen(filename, "r"))) {
@@ -368,10 +376,6 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
         col=0,
         ncol;
 
-    static __thread int blank=0,
-                cr=0; /* a carriot return was included at the end of
-                         the preceding line */
-
     int(*more_fputc)(int,FILE*)=fputc;
 
 #ifdef WIN32
@@ -452,9 +456,15 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
                     if (blank && (flags & PBAT_MORE_SQUEEZE))
                         continue;
 
-                    if (cr)
+                    if (cr) {
+
+                        /* this is the end of a line that just filled the
+                           preceding row */
+                        cr = 0;
                         continue;
 
+                    }
+
                     blank = 1;
 
                 } else {
-- 
2.43.0


From 43fe64b482cfff27ba1f0131aa889fe6b6bc033d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 098/143] fix: MORE /T:0 is an error and does not divide by
 zero

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 6c1530b..793f7a8 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -108,7 +108,7 @@ int pBat_CmdMore(char* line)
 
             tabsize = strtol(ptr, &ret, 0);
 
-            if (*ret) {
+            if (*ret || tabsize <= 0) {
 
                 pBat_ShowErrorMessage(PBAT_INVALID_NUMBER,
                                         ptr,
-- 
2.43.0


From c2d4fa1796c58bc24009cec28cb885a132865ad5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 099/143] fix: MORE does not cut an utf-8 character at the end
 of a row

---
 pbat/command/pBat_More.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 793f7a8..a18dee7 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -495,6 +495,17 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
     if (col == 79 && c != '\n') {
 
+        /* do not cut the last character */
+        if (flags & PBAT_MORE_USEU8) {
+
+            while (((c = fgetc(file)) != EOF) && (c & 0x80) && !(c & 0x40))
+                more_fputc(c, fOutput);
+
+            if (c != EOF)
+                ungetc(c, file);
+
+        }
+
         more_fputc('\n', fOutput);
         cr = 1;
 
-- 
2.43.0


From b44a1ce200a66a92822bf9a1aa6b1d899d5f1793 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 100/143] fix: MORE adds nothing to an escape code cut by the
 end of the file

---
 pbat/command/pBat_More.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index a18dee7..646cf27 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -432,7 +432,8 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
                     while (((c = fgetc(file)) != EOF) && !(c <= '~' && c >= '@'))
                         more_fputc(c, fOutput);
 
-                    more_fputc(c, fOutput);
+                    if (c != EOF)
+                        more_fputc(c, fOutput);
 
                     break;
 
-- 
2.43.0


From b5bfc241792696efbfbf078709579bdacfb142dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 101/143] fix: XARGS gives the lines it reads to the command
 unchanged, whatever characters they contain

---
 pbat/command/pBat_Xargs.c | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Xargs.c b/pbat/command/pBat_Xargs.c
index b14622d..6e3fed3 100644
--- a/pbat/command/pBat_Xargs.c
+++ b/pbat/command/pBat_Xargs.c
@@ -50,6 +50,26 @@
 
  */
 
+/* Add a parameter to the command line. The special characters it contains
+   have no effect. */
+static void pBat_XargsCat(ESTR* cmdline, char* param, int quoted)
+{
+    char esc[3] = "^";
+    char *chr;
+
+    while ((chr = strpbrk(param, quoted ? "^!" : "^!\""))) {
+
+        esc[1] = *chr;
+        *chr = '\0';
+        pBat_EsCat(cmdline, param);
+        pBat_EsCat(cmdline, esc);
+        param = chr + 1;
+
+    }
+
+    pBat_EsCat(cmdline, param);
+}
+
 int pBat_CmdXargs(char* line)
 {
     ESTR *param = pBat_EsInit_Cached(),
@@ -81,16 +101,22 @@ int pBat_CmdXargs(char* line)
 
         pBat_RmTrailingNl(param->str);
 
-        if (strpbrk(param->str, " ;,\t")
-            && *(pBat_SkipAllBlanks(param->str)) != '"') {
+        if (*(pBat_SkipAllBlanks(param->str)) == '"') {
+
+            pBat_EsCat(cmdline, " ");
+            pBat_XargsCat(cmdline, param->str, 1);
+
+        } else if (strpbrk(param->str, " ;,\t")) {
 
             pBat_EsCat(cmdline, " \"");
-            pBat_EsCatE(cmdline, param);
+            pBat_XargsCat(cmdline, param->str, 0);
             pBat_EsCat(cmdline, "\"");
 
         } else {
+
             pBat_EsCat(cmdline, " ");
-            pBat_EsCatE(cmdline, param);
+            pBat_XargsCat(cmdline, param->str, 0);
+
         }
 
     }
-- 
2.43.0


From 02cca3c50fd642ee89efeb7afa2ee8bf270fac5c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 102/143] fix: jokers do not stand for . and .. in the folders
 that lead to the files of TYPE, MORE, FIND and DIR

---
 libpbat/dir/pBat_Dir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index be2f839..d74b597 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -421,8 +421,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
     /* loop through the directory entities */
     while ((ent = readdir(dir))) {
 
-        /* skip basic pseudo dirs */
-        if ((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR)
+        /* skip basic pseudo dirs, jokers never lead into them */
+        if (((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR) || up != NULL)
             && (!strcmp(ent->d_name, ".") || !strcmp(ent->d_name, "..")))
             continue;
 
-- 
2.43.0


From 80bd7cfdc1fab720244bf7e8c441f655ef459f72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 103/143] fix: relative folders in PATH are relative to the
 current folder

---
 pbat/core/pBat_FilePath.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 3cd435a..2ca9bc5 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -219,6 +219,7 @@ int pBat_GetFilePath(char* lpFullPath, const char* lpPartial, size_t iBufSize)
 	ESTR* lpEsTmp=pBat_EsInit_Cached();
 	ESTR* lpEsPart=pBat_EsInit_Cached();
 	ESTR* lpEsFinalPath=pBat_EsInit_Cached();
+	ESTR* lpEsRelative=pBat_EsInit_Cached();
 
 	char *lpPathToken=pBat_GetEnv(lpeEnv, "PATH");
 
@@ -250,7 +251,9 @@ int pBat_GetFilePath(char* lpFullPath, const char* lpPartial, size_t iBufSize)
 
 		} else {
 
-			pBat_MakePath(lpEsTmp, 2, pBat_EsToChar(lpEsPart), lpPartial);
+			/* folders of %PATH% may be relative to the current folder */
+			pBat_MakePath(lpEsRelative, 2, pBat_EsToChar(lpEsPart), lpPartial);
+			pBat_MakeFullPathEs(lpEsTmp, pBat_EsToChar(lpEsRelative));
 
 		}
 
@@ -289,6 +292,7 @@ int pBat_GetFilePath(char* lpFullPath, const char* lpPartial, size_t iBufSize)
 	pBat_EsFree_Cached(lpEsPart);
 	pBat_EsFree_Cached(lpEsTmp);
 	pBat_EsFree_Cached(lpEsFinalPath);
+	pBat_EsFree_Cached(lpEsRelative);
 
 
 	return -1;
@@ -304,6 +308,7 @@ file_found:
 	pBat_EsFree_Cached(lpEsPart);
 	pBat_EsFree_Cached(lpEsTmp);
 	pBat_EsFree_Cached(lpEsFinalPath);
+	pBat_EsFree_Cached(lpEsRelative);
 
 	return 0;
 }
-- 
2.43.0


From 9900aea2b3cc1b2dc9608e90f94da55f857109b5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 104/143] fix: programs killed by a signal do not give the
 status of success

---
 pbat/core/pBat_Exec.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index c3895a8..28ba99c 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -270,6 +270,13 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 #elif !defined(WIN32)
 
+/* The status of a program, as reported by waitpid(). Programs that were killed
+   by a signal get 128 + signal, as they do in the shells */
+static int pBat_GetExitStatus(int status)
+{
+    return WIFSIGNALED(status) ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
+}
+
 int pBat_RunFile(EXECINFO* info, int* error)
 {
 	pid_t iPid;
@@ -361,6 +368,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
             if (read(fds[0], &c, sizeof(c)) != 0) {
 
                 close(fds[0]);
+                waitpid(iPid, NULL, 0);
 
                 *error = 1;
                 return -1;
@@ -375,7 +383,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	}
 
-	return WEXITSTATUS(iResult);
+	return pBat_GetExitStatus(iResult);
 
 }
 
-- 
2.43.0


From 6f2932317ca80900037fb9f989f5805c91dbc7ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 105/143] fix: the status of the start script is its exit code,
 not what waitpid gives

---
 pbat/core/pBat_Exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 28ba99c..8f50d99 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -632,7 +632,7 @@ int pBat_StartFile(EXECINFO* info, int* error)
 
     }
 
-    return status;
+    return pBat_GetExitStatus(status);
 
 }
 
-- 
2.43.0


From 815630fa6c0a014f64b90e812227f79d5f85cc6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 106/143] fix: the output of a script run by its name comes
 after what was written before

---
 pbat/core/pBat_Run.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 096b0dc..b51fbef 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -840,6 +840,12 @@ int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments
 
     arg->lpArguments[size] = NULL;
 
+    /* what has been written so far comes before the output of the script, and
+       the script shall read what has only been read ahead */
+    fflush(_fOutput);
+    fflush(_fError);
+    fflush(fInput);
+
     th = pBat_CloneInstance((void(*)(void*))pBat_LaunchExternalBatch, arg);
 
     if (pBat_WaitForThread(&th, &ret) != 0)
-- 
2.43.0


From 240757ac854fe41d129499d3dbaa3fe03c68e5c4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 107/143] fix: programs do not ignore the signals that the
 interpreter ignores

---
 pbat/core/pBat_Exec.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 8f50d99..197290a 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -24,6 +24,7 @@
 #include <errno.h>
 
 #ifndef WIN32
+#include <signal.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
@@ -277,6 +278,13 @@ static int pBat_GetExitStatus(int status)
     return WIFSIGNALED(status) ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
 }
 
+/* The signals that the interpreter ignores must not be ignored by programs */
+static void pBat_RestoreSignals(void)
+{
+    signal(SIGFPE, SIG_DFL);
+    signal(SIGPIPE, SIG_DFL);
+}
+
 int pBat_RunFile(EXECINFO* info, int* error)
 {
 	pid_t iPid;
@@ -326,6 +334,8 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
         close(fds[0]); /* close read end */
 
+        pBat_RestoreSignals();
+
 		if ( execv(info->file, info->args) == -1) {
 
 			/* if we got here, we can't set ERRORLEVEL
@@ -609,6 +619,7 @@ int pBat_StartFile(EXECINFO* info, int* error)
         /* apply pBat internal environment variables */
         pBat_ApplyEnv(lpeEnv);
         pBat_ApplyStreams(lppsStreamStack);
+        pBat_RestoreSignals();
 
         if (execv(script, arg) == -1) {
             pBat_ShowErrorMessage(PBAT_COMMAND_ERROR | PBAT_PRINT_C_ERROR,
-- 
2.43.0


From 14ceff13ab034faed8f29dc43a40526759cd0764 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 108/143] fix: CALL can run programs whose path contains blanks
 or special characters

---
 pbat/command/pBat_Call.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 7b3e200..679ff5a 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -416,8 +416,10 @@ int pBat_CmdCallExternal(char* lpFile, char* lpCh)
 
 	char *lpStr;
 
-	pBat_EsCpy(lpEsLine, lpFile);
-	pBat_EsCat(lpEsLine, " ");
+	/* the path may contain blanks or special characters */
+	pBat_EsCpy(lpEsLine, "\"");
+	pBat_EsCat(lpEsLine, lpFile);
+	pBat_EsCat(lpEsLine, "\" ");
 	pBat_EsCat(lpEsLine, lpCh);
 
     /* Offer a free new expansion turn  */
-- 
2.43.0


From 49e8fe9cb4277ae73fbb4b96edc8919596e541a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 109/143] fix: no prompt is written for the lines of the blocks
 of a script with CMDLYCORRECT

---
 pbat/core/pBat_Read.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index b2e52c8..627044d 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -230,7 +230,10 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 		}
 
         lpAltPromptString = ">";
-        pBat_OutputPromptString(lpAltPromptString);
+
+        /* there is no prompt for scripts */
+        if (*(pIn->lpFileName) == '\0' && bEchoOn)
+            pBat_OutputPromptString(lpAltPromptString);
 
 	}
 
-- 
2.43.0


From 983ec3bb99369d1ffba0addf0eefb42873edaa80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 110/143] fix: GetLine does not look at a line that the
 expansion has moved in memory

---
 pbat/core/pBat_Read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 627044d..8f126d6 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -200,8 +200,6 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 		lpCh=pBat_SkipAllBlanks(pBat_EsToChar(lpesTmp));
 
-        pBat_ReplaceVars(lpesTmp);
-
 		/* split comments label and void lines from input */
 		if (*lpCh==':' || *lpCh=='\0' || *lpCh=='\n') {
 
@@ -215,6 +213,8 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
             continue;
 		}
 
+        pBat_ReplaceVars(lpesTmp);
+
         /* the read line should *definitely* end with a '\n' (in
            in fact it always do, except when reaching end of file) */
         if (strchr(lpesTmp->str, '\n') == NULL)
-- 
2.43.0


From 2bfb78db39e8011400383b52f1f0dfe2a10f7aab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 111/143] fix: labels may be indented with CMDLYCORRECT

---
 pbat/core/pBat_Jump.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 72dc988..4478298 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -107,6 +107,7 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 {
 	size_t iSize=strlen(lpLabelName);
 	char* lpName=lpFileName;
+	char* lpLabel;
 	FILE* pFile;
 	ESTR* lpLine=pBat_EsInit_Cached();
 
@@ -138,9 +139,11 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 	while (!pBat_EsGet(lpLine, pFile)) {
 
         /* Check the label name matches is followed by a delimiter or '\0' */
-		if (!strnicmp(pBat_SkipBlanks(lpLine->str), lpLabelName, iSize)
-            && (pBat_IsDelim(*(lpLine->str + iSize))
-                || *(lpLine->str + iSize) == '\0')) {
+        lpLabel = pBat_SkipBlanks(lpLine->str);
+
+		if (!strnicmp(lpLabel, lpLabelName, iSize)
+            && (pBat_IsDelim(*(lpLabel + iSize))
+                || *(lpLabel + iSize) == '\0')) {
 
 			if (lpFileName) {
 
-- 
2.43.0


From f23097fbc7537cceae26ca0319bb25ed949d854d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 112/143] fix: PECHO. prints its text like ECHO. does

---
 pbat/command/pBat_CommandInfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_CommandInfo.c b/pbat/command/pBat_CommandInfo.c
index e2976be..d9462b2 100644
--- a/pbat/command/pBat_CommandInfo.c
+++ b/pbat/command/pBat_CommandInfo.c
@@ -75,6 +75,7 @@ COMMANDINFO lpCmdInfo[]= {
 	{"XARGS", pBat_CmdXargs, STRLEN("XARGS")},
 	{"PROMPT", pBat_CmdPrompt, STRLEN("PROMPT")},
 	{"PECHO", pBat_CmdPecho, STRLEN("PECHO")},
+	{"PECHO.", pBat_CmdPecho, 0},
 	{"TIMEOUT", pBat_CmdTimeout, STRLEN("TIMEOUT")},
 	{"MOD", pBat_CmdMod, STRLEN("MOD")},
 	{"LOCALE", pBat_CmdLocale, STRLEN("LOCALE")},
-- 
2.43.0


From cd9a124c30cca1ab260058ebdd2c95850e26a718 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 113/143] fix: the messages of failed calls do not depend on
 undeclared functions that return pointers

---
 pbat/command/pBat_For.c    | 2 +-
 pbat/core/pBat_ExpandDef.c | 1 +
 pbat/errors/pBat_Errors.c  | 1 +
 pbat/lang/pBat_ShowHelp.c  | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index d337248..d722110 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1392,7 +1392,7 @@ int pBat_ForInputProcess(ESTR* lpInput, INPUTINFO* lpipInfo, int* iPipeFd)
     if (!(pFile=fdopen(iPipeFd[0], "rb"))) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD,
-                              iPipeFd[0],
+                              __FILE__ "/pBat_ForInputProcess()",
                               FALSE);
 
         close(iPipeFd[0]);
diff --git a/pbat/core/pBat_ExpandDef.c b/pbat/core/pBat_ExpandDef.c
index fd6110a..1337e95 100644
--- a/pbat/core/pBat_ExpandDef.c
+++ b/pbat/core/pBat_ExpandDef.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <libpBat.h>
 
 #include "pBat_Core.h"
diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 8399d00..2d5ac3b 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <errno.h>
 
 #include <libpBat.h>
diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index 5a83b3e..947d2c8 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -19,6 +19,7 @@
  */
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <libpBat.h>
 
-- 
2.43.0


From e85ea0ad4888c1485cdbbf30ae52f9cb7e72f3de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 114/143] fix: a command line that can only be run on the
 second try does not hang the interpreter

---
 pbat/core/pBat_Run.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index b51fbef..fbcb706 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -447,7 +447,7 @@ int pBat_RunCommand(ESTR* lpCommand, PARSED_LINE** lpplLine)
 	char lpErrorlevel[sizeof(STR(INT_MIN))],
          lpTmpLine[]="CD X:";
 	char *lpCmdLine, *tmp;
-	int iFlag, error = 0;
+	int iFlag, error = 0, last;
 
 RestartSearch:
 
@@ -474,8 +474,13 @@ RestartSearch:
 
 	case -1:
 
+		last = error;
 		iErrorLevel = pBat_RunExternalCommand(lpCmdLine, &error);
 
+		/* it has been run at this try, or there was nothing to run */
+		if (error == last)
+			break;
+
 		/* There is definitely an error that prevent the file
 		   from being found. Thus, try another time, but expanding
 		   the whole line for this moment. This behaviour appears to
@@ -662,9 +667,14 @@ int pBat_RunExternalCommand(char* lpCommandLine, int* error)
 
     size_t nb=0;
 
-    if ((list = pBat_GetParamList(lpCommandLine)) == NULL)
+    if ((list = pBat_GetParamList(lpCommandLine)) == NULL) {
+
+        /* there is nothing to run */
+        pBat_EsFree_Cached(lpCmdLine);
         return 0;
 
+    }
+
     item = list;
 
     while (item) {
-- 
2.43.0


From 147e5acaf0fe89bc64202e657e794b0729681913 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 115/143] fix: IF does not look outside of its first operand

---
 pbat/command/pBat_If.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index ad2ed77..18029b5 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -244,9 +244,10 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 				*/
 				char *q = (lpToken2 + strlen(lpToken2) - 1);
 
-				if (*q == '"') {
+				if (*lpToken2 != '\0' && *q == '"') {
 					*q = '\0';
-					lpToken++;
+					if (*lpToken != '\0')
+						lpToken++;
 				}
 
                 iResult = pBat_PerformExtendedTest("==",
-- 
2.43.0


From da81c27fd512132a97df5295a43c4fd7aee4a99b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 116/143] fix: MOVE has its help and REN keeps its own

---
 pbat/lang/pBat_ShowHelp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index 947d2c8..efbf055 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -123,6 +123,10 @@ void pBat_LoadInternalHelp(void)
 	             "       MKDIR directory\n");
 
 
+	lpInternalHelp[PBAT_HELP_MOVE]
+	    =gettext("Move file(s) to another location.\n"
+	             "Usage: MOVE [/-Y | /Y] [/R] [/A[:]attributes] source [...] destination\n");
+
 	lpInternalHelp[PBAT_HELP_PAUSE]
 	    =gettext("Wait for a keystroke from the user.\n"
 	             "Usage: PAUSE\n");
@@ -138,7 +142,7 @@ void pBat_LoadInternalHelp(void)
 	             "Usage: REN file name.ext\n"
 	             "       RENAME file name.ext\n");
 
-	lpInternalHelp[PBAT_HELP_REN]
+	lpInternalHelp[PBAT_HELP_REM]
 	    =gettext("Introduce a comment.\n"
 	             "Usage: REM comment\n");
 
@@ -247,6 +251,9 @@ void pBat_ShowInternalHelp(int cmdId)
 
         p = lpInternalHelp[cmdId];
 
+        if (p == NULL)
+            return;
+
         /* Translate '\n' to PBAT_NL */
         while (nl = strchr(p, '\n')) {
 
-- 
2.43.0


From 44890a51bc87ad95a8bd6a880f72920fec2b8567 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 117/143] fix: a long pattern does not get read from released
 memory

---
 pbat/core/pBat_FilePath.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 2ca9bc5..edb7a1d 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -157,6 +157,8 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
                                             PBAT_PRINT_C_ERROR,
                                             __FILE__ "/pBat_EsToFullPath()",
                                             -1);
+
+        p = TRANS(full->str);
     }
 
     memmove(full->str + size + 1, p, len);
-- 
2.43.0


From 0c3061d56b7f5bd20125af18be2ab3e487013c1f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 118/143] fix: overlong names do not run over the buffers of
 RENAME, COPY and the path splitter

---
 pbat/command/pBat_Copy.c   | 2 +-
 pbat/command/pBat_Ren.c    | 2 +-
 pbat/core/pBat_SplitPath.c | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index f46fffd..c82ebfb 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -364,7 +364,7 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
         pBat_SplitPath(file, NULL, NULL, name, ext);
 
-        strncat(name, ext, FILENAME_MAX - strlen(name));
+        strncat(name, ext, FILENAME_MAX - strlen(name) - 1);
         name[FILENAME_MAX-1] = '\0';
 
         pBat_MakePath(dest_real, 2, dest, name);
diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index 2c5cd46..b1c6d4f 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -103,7 +103,7 @@ int pBat_CmdRen(char* lpLine)
 			}
 
 			/* cat with new name */
-			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest));
+			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest)-1);
 			lpFileDest[FILENAME_MAX-1]='\0';
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
diff --git a/pbat/core/pBat_SplitPath.c b/pbat/core/pBat_SplitPath.c
index 4a8821b..8bbe457 100644
--- a/pbat/core/pBat_SplitPath.c
+++ b/pbat/core/pBat_SplitPath.c
@@ -57,7 +57,7 @@ void pBat_SplitPath(char* lpPath,
 		PBAT_DBG("found path=\"%s\"\n", lpToken);
 
 		if (lpDir)
-			strncpy(lpDir, lpToken, _MAX_DIR);
+			snprintf(lpDir, _MAX_DIR, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken;
@@ -78,7 +78,7 @@ void pBat_SplitPath(char* lpPath,
 
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken+1;
@@ -91,7 +91,7 @@ void pBat_SplitPath(char* lpPath,
 	} else {
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		if (lpExt)
 			*lpExt='\0';
-- 
2.43.0


From 2c2316a4ec11143ed8319e2528a04307e5af40b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 119/143] fix: an IF expression whose brackets are not closed
 is an error

---
 pbat/command/pBat_IfExp.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index fceb9d0..131b124 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -437,6 +437,15 @@ char * pBat_IfExp_ParseLine(char* line, ifexp_line_t** ops)
 
     }
 
+    if (line == NULL) {
+
+        /* the line ended before the brackets were closed */
+        pBat_EsFree_Cached(str);
+        pBat_IfExp_FreeLine(ret);
+        ret = NULL;
+
+    }
+
     *ops = ret;
 
     return line;
-- 
2.43.0


From 558394fda49b3a3635823fc1990ddfe7f8f3eacf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 120/143] fix: a line that holds an unclosed block is reported
 and does not abort

---
 pbat/core/pBat_Run.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index fbcb706..322ba40 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -592,8 +592,14 @@ int pBat_RunBlock(BLOCKINFO* lpbkInfo)
 
             lpBlockEnd = pBat_SkipBlanks(lpBlockEnd);
 
-            lpBlockEnd = pBat_GetBlockLineEnd(lpBlockEnd);
-            assert(lpBlockEnd);
+            if ((lpBlockEnd = pBat_GetBlockLineEnd(lpBlockEnd)) == NULL) {
+
+                /* the line holds a block that is not closed, let it be
+                   reported when the line is run */
+                lpBlockEnd = lpEnd;
+                break;
+
+            }
 
             if (*lpBlockEnd == '&' || *lpBlockEnd == '|')
                 lpBlockEnd ++;
-- 
2.43.0


From 6a6a1b6bbbee0e7e83d9f30b2e455c7737278b32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 121/143] fix: SET /A knows the documented function log10

---
 libfasteval/lib/fasteval.c | 4 ++--
 libfasteval/lib/scanner.l  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libfasteval/lib/fasteval.c b/libfasteval/lib/fasteval.c
index 2fba6d9..a0ba2b4 100644
--- a/libfasteval/lib/fasteval.c
+++ b/libfasteval/lib/fasteval.c
@@ -81,7 +81,7 @@ double evaluate_function(const char *name, double arg)
     "abs", "acos", "acosh", "acot", "acoth", "acsc",
     "acsch", "asec", "asech", "asin", "asinh", "atan",
     "atanh", "cos", "cosh", "cot", "coth", "csc", "csch",
-    "delta", "erf", "exp", "log", "nandelta", "sec", "sech",
+    "delta", "erf", "exp", "log", "log10", "nandelta", "sec", "sech",
     "sin", "sinh", "sqrt", "step", "tan", "tanh",
 	};
 
@@ -89,7 +89,7 @@ double evaluate_function(const char *name, double arg)
     fabs, acos, acosh, math_acot, math_acoth, math_acsc,
     math_acsch, math_asec, math_asech, asin, asinh, atan,
     atanh, cos, cosh, math_cot, math_coth, math_csc, math_csch,
-    math_delta, erf, exp, log, math_nandelta, math_sec, math_sech,
+    math_delta, erf, exp, log, log10, math_nandelta, math_sec, math_sech,
     sin, sinh, sqrt, math_step, tan, tanh,
   };
 
diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index d20cbaa..947df1e 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -73,7 +73,7 @@ digit [0-9]
 integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
-function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
+function "exp"|"log"|"log10"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
 nodelim	   [^+\-*%/&>~!<%\|=()^\n\t ]
 nodelimnb  [^+\-*%/&>~!<%\|=()^\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
-- 
2.43.0


From 93076bb765eb5c297639ad02a27a87e847296c4c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 122/143] fix: a variable that holds inf or nan keeps it in SET
 /A

---
 libfasteval/lib/parser.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 8f77040..f1c603f 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -228,9 +228,10 @@ expression
 }
 | VARIABLE {
   /* TODO: Improve this */
-  $$.is_double = 0;
   $$.d = get_var($1);
-  $$.i = (int)$$.d;
+  /* no integer can hold an infinite value or nan */
+  $$.is_double = !isfinite($$.d);
+  $$.i = $$.is_double ? 0 : (int)$$.d;
 }
 ;
 
-- 
2.43.0


From 43ae5eeb5a7db51848f7e0ef795f030c2e2b81db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 123/143] fix: MORE does not crash on a file it can not open

---
 pbat/command/pBat_More.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 646cf27..61dac90 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -265,9 +265,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
                                     FALSE
                                     );
 
-            status = PBAT_FILE_ERROR;
-
-            goto end;
+            return PBAT_FILE_ERROR;
         }
 
      } else {
-- 
2.43.0


From 449e90affecfb0e328980ae515e1c4ccabc69ebb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:37:46 +0000
Subject: [PATCH 124/143] fix: LOCALE loads the path it is given

---
 pbat/command/pBat_Locale.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Locale.c b/pbat/command/pBat_Locale.c
index 4740920..48023f8 100644
--- a/pbat/command/pBat_Locale.c
+++ b/pbat/command/pBat_Locale.c
@@ -68,6 +68,8 @@ int pBat_CmdLocale(char* line)
     ESTR* param = pBat_EsInit_Cached();
     int done = 0, status = 0;
 
+    line += 6;
+
     while (line = pBat_GetNextParameterEs(line, param)) {
 
         if (done) {
-- 
2.43.0


From 81db12b4fbf52f6d2879176f0454b00a82ec4921 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:37:46 +0000
Subject: [PATCH 125/143] fix: REN /? shows its help

---
 pbat/command/pBat_Ren.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index b1c6d4f..c1f80f4 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -68,6 +68,15 @@ int pBat_CmdRen(char* lpLine)
 
 	if ((lpLine=pBat_GetNextParameterEs(lpLine, lpEstr))) {
 
+		if (!strcmp(pBat_EsToChar(lpEstr), "/?")) {
+
+			pBat_ShowInternalHelp(PBAT_HELP_REN);
+			pBat_EsFree_Cached(lpEstr);
+
+			return PBAT_NO_ERROR;
+
+		}
+
 		strncpy(lpFileName, pBat_EsToFullPath(lpEstr), FILENAME_MAX);
 		lpFileName[FILENAME_MAX-1]='\0';
 		/* can't assume that what was buffered is NULL-terminated
-- 
2.43.0


From cfbc78a55e949984d8e6a27c03a9a108c2b2da7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 126/143] fix: DUMP reads the elements with the type asked for

---
 dump/dump.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index efcb24b..212f5ed 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -51,10 +51,10 @@
 #define DUMP_USHORT 3
 #define DUMP_INT 4
 #define DUMP_UINT 5
-#define DUMP_LONGLONG 5
-#define DUMP_ULONGLONG 6
-#define DUMP_FLOAT 7
-#define DUMP_DOUBLE 8
+#define DUMP_LONGLONG 6
+#define DUMP_ULONGLONG 7
+#define DUMP_FLOAT 8
+#define DUMP_DOUBLE 9
 
 #define DUMP_ADDRESS 0x1
 #define DUMP_TITLE 0x2
-- 
2.43.0


From 985f758c30a5449ac4213d48b98e81064d43c376 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 127/143] fix: DUMP /H prints negative and floating point
 elements

---
 dump/dump.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dump/dump.c b/dump/dump.c
index 212f5ed..c765880 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -184,6 +184,23 @@ void fill_context(int type, int flags, struct dump_t* context)
                 "%%0%d%s", size, (flags & DUMP_HEX) ?
                                   (types[type].hexfmt) : (types[type].decfmt));
 
+    /* bytes are printed as they are, whatever the type of the elements */
+    if (flags & DUMP_HEX) {
+        switch (types[type].size) {
+        case sizeof(char):
+            type = DUMP_UCHAR;
+            break;
+        case sizeof(short):
+            type = DUMP_USHORT;
+            break;
+        case sizeof(int):
+            type = DUMP_UINT;
+            break;
+        default:
+            type = DUMP_ULONGLONG;
+        }
+    }
+
     context->size = types[type].size;
 
     s = (flags & DUMP_QUIET) ? 0 : 1 ;
-- 
2.43.0


From f3d5dad4370d09753998f2925246d2e30f98e3cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 128/143] fix: DUMP /B does not run over the end of the format

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index c765880..c3a9697 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -379,7 +379,7 @@ int main(int argc, char** argv)
 
             flags &= ~ DUMP_DEFAULT;
 
-            while (*argv) {
+            while (**argv) {
                 switch (**argv) {
 
                 case 'a':
-- 
2.43.0


From 566af6fd9f9d1904febe935731b6c2e0ac8aa999 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:41:02 +0000
Subject: [PATCH 129/143] fix: DUMP prints the characters of the last row only

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index c3a9697..6173d04 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -294,7 +294,7 @@ int dump_fd(int fd, struct dump_t* context)
 
             p = chars;
 
-            while (p < chars + size) {
+            while (p < chars + count) {
 
                 if (*p < 0x20)
                     *p = '.';
-- 
2.43.0


From e409f94d36dc151fab114f72d9f96864ca9132dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:41:02 +0000
Subject: [PATCH 130/143] fix: DUMP copes with short reads and read errors

---
 dump/dump.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index 6173d04..f00aa54 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -229,6 +229,31 @@ int get_type(const char* type)
     return -1;
 }
 
+/* reads a whole row, unless the end of the file comes first */
+int read_row(int fd, char* data, size_t size)
+{
+    size_t count = 0;
+    int ret;
+
+    while (count < size) {
+
+        if ((ret = read(fd, data + count, size - count)) < 0) {
+
+            fprintf(stderr, "dump: unable to read data.\n");
+            return -1;
+
+        }
+
+        if (ret == 0)
+            break;
+
+        count += ret;
+
+    }
+
+    return count;
+}
+
 int dump_fd(int fd, struct dump_t* context)
 {
     char *chars, *data, *p, *addr = NULL, *spaces;
@@ -245,7 +270,7 @@ int dump_fd(int fd, struct dump_t* context)
 
     spaces = (context->flags & DUMP_QUIET) ? "" : " ";
 
-    while ((count = read(fd, data, size))) {
+    while ((count = read_row(fd, data, size)) > 0) {
 
         if (count < size) {
              /* we reached eof and count is not a multiple of the
@@ -315,7 +340,7 @@ int dump_fd(int fd, struct dump_t* context)
     free(chars);
     free(data);
 
-    return 0;
+    return (count < 0) ? -1 : 0;
 
 }
 
-- 
2.43.0


From d3b5a282279e3cace6c8dc4ac306a53e55efdfed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 131/143] fix: TEA splits the long words of headings and blocks
 of code instead of looping forever

---
 tea/src/out/tea_text_out.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tea/src/out/tea_text_out.c b/tea/src/out/tea_text_out.c
index 1dbd63f..01991b1 100644
--- a/tea/src/out/tea_text_out.c
+++ b/tea/src/out/tea_text_out.c
@@ -77,7 +77,8 @@ void Tea_TextOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv)
 
 void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLength, char* lpBlock, char* lpNl, FILE* pFile)
 {
-	size_t iLeft;
+	size_t iLeft,
+	       iLeftNl;
 	int    bFirstLine=TRUE;
 
 	if ((iMargin >= iLength)
@@ -120,8 +121,15 @@ void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLe
 
 		}
 
+		iLeftNl=iLeft;
+
 		lpBlock=Tea_OutputLine(lpBlock, pFile, &iLeft);
 
+		/* if nothing has been written, the next word is too long to
+		   fit in a single line, thus, split it in various lines */
+		if (lpBlock && iLeftNl==iLeft)
+			lpBlock=Tea_OutputWord(lpBlock, pFile, &iLeft);
+
 	}
 
 }
-- 
2.43.0


From 5e846d091440de7b1494726dc7648af37dd50ed7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 132/143] fix: TEA does not read past the end of a paragraph
 that ends with a long word

---
 tea/src/out/tea_text_out.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/tea/src/out/tea_text_out.c b/tea/src/out/tea_text_out.c
index 01991b1..079ee02 100644
--- a/tea/src/out/tea_text_out.c
+++ b/tea/src/out/tea_text_out.c
@@ -140,8 +140,7 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 	       iLeftNl;
 	int    bFirstLine=TRUE;
 	int    iNoMargin=FALSE;
-	char   *lpBlock,
-	       *lpNext;
+	char   *lpBlock;
 
 	if ((iMargin >= iLength)
 	    || (iFirstLine >= iLength)) {
@@ -186,31 +185,21 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 
 			lpBlock=Tea_OutputLineT(lpBlock, pFile, lpTeaNode, &iLeft);
 
-			if (iLeftNl==iLeft) {
+			if (lpBlock && iLeftNl==iLeft) {
 
 				/* if nothing has been written since we wrote the
 				   last line, it should be that the world is to
 				   long too fit in a single line, thus, we should try
 				   to split it in various lines */
 
-				while (iLeft) {
+				lpBlock=Tea_OutputWord(lpBlock, pFile, &iLeft);
 
-					lpNext=pBat_GetNextChar(lpBlock);
-
-					while (lpBlock < lpNext) {
-
-						fputc(*lpBlock, pFile);
-						lpBlock++;
-
-					}
-
-					iLeft--;
-
-				}
-
-				while (*lpBlock==' ')
+				while (lpBlock && *lpBlock==' ')
 					lpBlock++;
 
+				if (lpBlock && !*lpBlock)
+					lpBlock=NULL;
+
 			}
 
 		}
-- 
2.43.0


From 36f3c98ca4570df40549a9199f428704f924298e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 133/143] fix: TEA /O:TEXT-ANSI splits the long words of
 paragraphs instead of looping forever

---
 tea/src/out/tea_ansi_out.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tea/src/out/tea_ansi_out.c b/tea/src/out/tea_ansi_out.c
index 0fbc7ed..46bef05 100644
--- a/tea/src/out/tea_ansi_out.c
+++ b/tea/src/out/tea_ansi_out.c
@@ -84,7 +84,8 @@ void Tea_TextAnsiOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** ar
 
 void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength, TEANODE* lpTeaNode, char* lpNl, FILE* pFile)
 {
-	size_t iLeft;
+	size_t iLeft,
+	       iLeftNl;
 	int    bFirstLine=TRUE;
 	int    iNoMargin=FALSE;
 	char   *lpBlock;
@@ -138,10 +139,27 @@ void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLeng
 
 				}
 
+				iLeftNl=iLeft;
+
 			}
 
 			lpBlock=Tea_OutputLineT(lpBlock, pFile, lpTeaNode, &iLeft);
 
+			if (lpBlock && iLeftNl==iLeft) {
+
+				/* nothing has been written, split the word as
+				   it is too long to fit in a single line */
+
+				lpBlock=Tea_OutputWord(lpBlock, pFile, &iLeft);
+
+				while (lpBlock && *lpBlock==' ')
+					lpBlock++;
+
+				if (lpBlock && !*lpBlock)
+					lpBlock=NULL;
+
+			}
+
 		}
 
 		if (lpTeaNode->iNodeType
-- 
2.43.0


From 386e858f42fee1fb7392c0d483fc01c47225be93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 134/143] fix: TEA does not repeat text that follows a
 backslash at the end of a paragraph

---
 tea/src/Tea_Load.c | 6 ++----
 tea/src/Tea_Node.c | 4 +---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/tea/src/Tea_Load.c b/tea/src/Tea_Load.c
index ea4e9b7..54ed0e7 100644
--- a/tea/src/Tea_Load.c
+++ b/tea/src/Tea_Load.c
@@ -453,11 +453,9 @@ int         Tea_SweepSpace(char* lpContent)
 
 				lpContent++;
 
-			} else {
-
-				return 0;
-
 			}
+
+			iSpaceGroup=FALSE;
 			break;
 
 		case '\n':
diff --git a/tea/src/Tea_Node.c b/tea/src/Tea_Node.c
index 39534c7..8291912 100644
--- a/tea/src/Tea_Node.c
+++ b/tea/src/Tea_Node.c
@@ -211,10 +211,8 @@ int         Tea_SweepSpaceNode(char* lpContent, int* iSweepBegin)
 		case '\\':
 			if (*(lpContent+1)) {
 				lpContent++;
-				iSpaceGroup=FALSE;
-			} else {
-				return 0;
 			}
+			iSpaceGroup=FALSE;
 			break;
 
 		case '\n':
-- 
2.43.0


From f1649d7fe69a2c4b86fec6800d2252c6c90f8aae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 135/143] fix: TEA keeps an escaped minus sign at the beginning
 of a paragraph in HTML and markdown

---
 tea/src/out/tea_html_out.c | 8 +++++---
 tea/src/out/tea_md_out.c   | 4 +++-
 tea/src/out/tea_out.h      | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/tea/src/out/tea_html_out.c b/tea/src/out/tea_html_out.c
index e501133..9901b1d 100644
--- a/tea/src/out/tea_html_out.c
+++ b/tea/src/out/tea_html_out.c
@@ -295,7 +295,9 @@ void Tea_HtmlOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv)
 
 			fputs("<p>", pFile);
 
-			Tea_HtmlOutputParagraph(lpTeaPage->lpTeaNode, pFile,  iCompMode);
+			Tea_HtmlOutputParagraph(lpTeaPage->lpTeaNode, pFile,  iCompMode,
+			                        lpTeaPage->iBlockLevel
+			                        && !(lpTeaPage->iFlag & TEA_LIST_NO_MARK));
 
 			fputs("</p>", pFile);
 
@@ -338,10 +340,10 @@ error:
 	exit(-1);
 }
 
-void Tea_HtmlOutputParagraph(TEANODE* lpTeaNode, FILE* pFile, int iCompMode)
+void Tea_HtmlOutputParagraph(TEANODE* lpTeaNode, FILE* pFile, int iCompMode, int bMark)
 {
 	char* lpCh, *ext;
-	int   bFirstLine=TRUE;
+	int   bFirstLine=bMark;
 
 	while (lpTeaNode) {
 
diff --git a/tea/src/out/tea_md_out.c b/tea/src/out/tea_md_out.c
index 3b24bd6..7c9bd11 100644
--- a/tea/src/out/tea_md_out.c
+++ b/tea/src/out/tea_md_out.c
@@ -60,7 +60,9 @@ void Tea_MDOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv)
 			break;
 
 		case TEA_BLOCK_PARAGRAPH:
-            if (*(lpTeaPage->lpTeaNode->lpContent) == '-')
+            if (lpTeaPage->iBlockLevel
+                && !(lpTeaPage->iFlag & TEA_LIST_NO_MARK)
+                && *(lpTeaPage->lpTeaNode->lpContent) == '-')
                 *(lpTeaPage->lpTeaNode->lpContent) = '*';
 
 			Tea_TextOutputParagraph(2*(lpTeaPage->iBlockLevel),
diff --git a/tea/src/out/tea_out.h b/tea/src/out/tea_out.h
index 494d692..bfdf99b 100644
--- a/tea/src/out/tea_out.h
+++ b/tea/src/out/tea_out.h
@@ -56,7 +56,7 @@ void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLeng
 void Tea_HtmlOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv);
 void Tea_HtmlParseHandler(int iMsg ,void* lpData);
 
-void Tea_HtmlOutputParagraph(TEANODE* lpTeaNode, FILE* pFile, int iCompMode);
+void Tea_HtmlOutputParagraph(TEANODE* lpTeaNode, FILE* pFile, int iCompMode, int bMark);
 void Tea_HtmlEscapeChar(ESTR* lpEsStr);
 
 void Tea_HtmlGetTitle(TEAPAGE* lpTeaPage, ESTR* lpEsStr);
-- 
2.43.0


From febc86aab4d76f7b257550042ff9ba271781f59f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 136/143] fix: TEA does not leave a blank line behind a word
 that fills its line

---
 tea/src/out/tea_ansi_out.c |  3 +++
 tea/src/out/tea_text_out.c | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/tea/src/out/tea_ansi_out.c b/tea/src/out/tea_ansi_out.c
index 46bef05..237082c 100644
--- a/tea/src/out/tea_ansi_out.c
+++ b/tea/src/out/tea_ansi_out.c
@@ -134,6 +134,9 @@ void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLeng
 
 				} else {
 
+					while (*lpBlock==' ')
+						lpBlock++;
+
 					fputs(lpNl, pFile);
 					Tea_MakeMargin(iMargin, &iLeft, pFile);
 
diff --git a/tea/src/out/tea_text_out.c b/tea/src/out/tea_text_out.c
index 079ee02..5021e1b 100644
--- a/tea/src/out/tea_text_out.c
+++ b/tea/src/out/tea_text_out.c
@@ -127,9 +127,15 @@ void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLe
 
 		/* if nothing has been written, the next word is too long to
 		   fit in a single line, thus, split it in various lines */
-		if (lpBlock && iLeftNl==iLeft)
+		if (lpBlock && iLeftNl==iLeft) {
+
 			lpBlock=Tea_OutputWord(lpBlock, pFile, &iLeft);
 
+			if (lpBlock && *lpBlock==' ')
+				lpBlock++;
+
+		}
+
 	}
 
 }
@@ -174,6 +180,9 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 
 				} else {
 
+					while (*lpBlock==' ')
+						lpBlock++;
+
 					fputs(lpNl, pFile);
 					Tea_MakeMargin(iMargin, &iLeft, pFile);
 
-- 
2.43.0


From ba35a6891a30227ad5d8d7316a8b50fdde836ec9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:11:12 +0000
Subject: [PATCH 137/143] fix: the output of START /B command comes after what
 was written before

---
 pbat/command/pBat_Start.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index cb0e40f..8d08cdc 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -96,6 +96,10 @@ int pBat_StartCommandBackground(const char* cmdline, int wait)
     data->str = pBat_EsInit();
     pBat_EsCat(data->str, cmdline);
 
+    /* what has been written so far comes before the output of the command */
+    fflush(_fOutput);
+    fflush(_fError);
+
     handle = pBat_CloneInstance((void(*)(void*))pBat_StartCommandExec, data);
 
     if (wait)
-- 
2.43.0


From dc28b18db69f23de5b30ab55c633214f4d3872d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:13:45 +0000
Subject: [PATCH 138/143] fix: START /D also holds for the internal commands
 run by START /B

---
 pbat/command/pBat_Start.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 8d08cdc..11cdecd 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -68,10 +68,16 @@
 
  */
 
-void pBat_StartCommandExec(struct pipe_launch_data_t* data)
+struct start_launch_data_t {
+    ESTR* str;
+    char dir[FILENAME_MAX];
+};
+
+void pBat_StartCommandExec(struct start_launch_data_t* data)
 {
     bIgnoreExit = TRUE;
 
+    snprintf(lpCurrentDir, FILENAME_MAX, "%s", data->dir);
 
     pBat_RunLine(data->str);
 
@@ -82,19 +88,20 @@ void pBat_StartCommandExec(struct pipe_launch_data_t* data)
 }
 
 
-int pBat_StartCommandBackground(const char* cmdline, int wait)
+int pBat_StartCommandBackground(const char* cmdline, const char* dir, int wait)
 {
-    struct pipe_launch_data_t* data;
+    struct start_launch_data_t* data;
     THREAD handle;
     void* ret;
 
-    if ((data = malloc(sizeof(struct pipe_launch_data_t))) == NULL)
+    if ((data = malloc(sizeof(struct start_launch_data_t))) == NULL)
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION,
                                 __FILE__ "/pBat_StartCommandBackground()",
                                 -1);
 
     data->str = pBat_EsInit();
     pBat_EsCat(data->str, cmdline);
+    snprintf(data->dir, sizeof(data->dir), "%s", dir);
 
     /* what has been written so far comes before the output of the command */
     fflush(_fOutput);
@@ -363,7 +370,7 @@ int pBat_CmdStart(char* line)
         info.dir = lpCurrentDir;
 
     if (command)
-        status = pBat_StartCommandBackground(info.cmdline,
+        status = pBat_StartCommandBackground(info.cmdline, info.dir,
                                              info.flags & PBAT_EXEC_WAIT);
     else
         status = pBat_ExecuteFile(&info);
-- 
2.43.0


From 3d084700aededf6155ea98dc336ef1819a4bb421 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:13:45 +0000
Subject: [PATCH 139/143] fix: START ignores /MIN and /MAX where there are no
 windows, as documented

---
 pbat/command/pBat_Start.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 11cdecd..aec268f 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -160,7 +160,9 @@ int pBat_CmdStart(char* line)
 
             info.flags &= ~PBAT_EXEC_SEPARATE_WINDOW;
 
-        } else if (!stricmp(param->str, "/NORMAL")              /* \        */
+        } else if (!stricmp(param->str, "/MIN")                 /* \        */
+                    || !stricmp(param->str, "/MAX")             /* |        */
+                    || !stricmp(param->str, "/NORMAL")          /* |        */
                     ||!stricmp(param->str, "/SHARED")           /* |        */
                     || !stricmp(param->str, "/SEPARATE")        /* |        */
                     || !stricmp(param->str, "/HIGH")            /* |        */
-- 
2.43.0


From 63f80f7fe6dbb1f4b8c4d6c5ae2b2000f81ae42f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:17:12 +0000
Subject: [PATCH 140/143] fix: START takes the absolute path of a script

---
 pbat/command/pBat_Start.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index aec268f..cf4ae78 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -289,7 +289,8 @@ int pBat_CmdStart(char* line)
                     if (bCmdlyCorrect)
                         pBat_EsCat(param, "c");
 
-                    pBat_EsCat(param, " ");
+                    /* the name of the script may begin with a slash */
+                    pBat_EsCat(param, " // ");
                     pBat_EsCat(param, line);
 
                 } else {
-- 
2.43.0


From cf68f23925014a9fe265d6cdbfacd7f19030a198 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:40:13 +0000
Subject: [PATCH 141/143] fix: completing a word in the middle of a line copies
 over itself

---
 pbat/linenoise/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 905c02b..c0acce3 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -516,7 +516,7 @@ void xlibcu8_completion_insert(const char* completion,
 
     *size -= len;
 
-    memcpy(*pos + len, *pos, *buf - *pos);
+    memmove(*pos + len, *pos, *buf - *pos);
     memcpy(*pos, completion, len);
 
     *pos += len;
-- 
2.43.0


From 6b7b98dc7a9a9886e3061edc7d750f2d759eb8da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:40:13 +0000
Subject: [PATCH 142/143] fix: a combining character at the beginning of a line
 hangs the line editor

---
 pbat/linenoise/utf8.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pbat/linenoise/utf8.c b/pbat/linenoise/utf8.c
index cca22f5..f1c53e5 100644
--- a/pbat/linenoise/utf8.c
+++ b/pbat/linenoise/utf8.c
@@ -443,16 +443,17 @@ size_t linenoiseUtf8NextCharLen(const char* buf, size_t buf_len, size_t pos, siz
     size_t beg = pos;
     int cp;
     size_t len = utf8BytesToCodePoint(buf + pos, buf_len - pos, &cp);
-    if (isCombiningChar(cp)) {
-        /* NOTREACHED */
-        return 0;
+    if (len == 0) {
+        /* not a character: a byte on its own */
+        if (col_len != NULL) *col_len = 1;
+        return 1;
     }
     if (col_len != NULL) *col_len = isWideChar(cp) ? 2 : 1;
     pos += len;
     while (pos < buf_len) {
         int cp;
         len = utf8BytesToCodePoint(buf + pos, buf_len - pos, &cp);
-        if (!isCombiningChar(cp)) return pos - beg;
+        if (len == 0 || !isCombiningChar(cp)) return pos - beg;
         pos += len;
     }
     return pos - beg;
@@ -467,14 +468,15 @@ size_t linenoiseUtf8PrevCharLen(const char* buf, size_t buf_len, size_t pos, siz
         size_t len = prevUtf8CharLen(buf, pos);
         pos -= len;
         int cp;
-        utf8BytesToCodePoint(buf + pos, len, &cp);
+        if (utf8BytesToCodePoint(buf + pos, len, &cp) == 0) cp = 0;
         if (!isCombiningChar(cp)) {
             if (col_len != NULL) *col_len = isWideChar(cp) ? 2 : 1;
             return end - pos;
         }
     }
-    /* NOTREACHED */
-    return 0;
+    /* combining characters at the beginning of the line */
+    if (col_len != NULL) *col_len = 1;
+    return end - pos;
 }
 
 /* Read a Unicode from file.
-- 
2.43.0


From 050095a371117b72508c9aa9678681bac0b9b0f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:40:13 +0000
Subject: [PATCH 143/143] fix: Ctrl+T swaps bytes instead of characters

---
 pbat/linenoise/linenoise.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index c0acce3..0a6338f 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -1085,10 +1085,16 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             break;
         case CTRL_T:    /* ctrl-t, swaps current character with previous. */
             if (l.pos > 0 && l.pos < l.len) {
-                int aux = buf[l.pos-1];
-                buf[l.pos-1] = buf[l.pos];
-                buf[l.pos] = aux;
-                if (l.pos != l.len-1) l.pos++;
+                /* characters may be made of several bytes */
+                size_t prev = prevCharLen(buf,l.len,l.pos,NULL);
+                size_t next = nextCharLen(buf,l.len,l.pos,NULL);
+                size_t start = l.pos-prev, i;
+                for (i = 0; i < next; i++) {
+                    char aux = buf[l.pos+i];
+                    memmove(buf+start+i+1,buf+start+i,prev);
+                    buf[start+i] = aux;
+                }
+                l.pos = (l.pos+next != l.len) ? l.pos+next : start+next;
                 refreshLine(&l);
             }
             break;
-- 
2.43.0

