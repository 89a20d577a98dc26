From 7b72038d9636e075da0d1a7a6c45e16ae3066944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 001/173] fix: do not free an uninitialised script when a label
 is missing

---
 pbat/core/pBat_Jump.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..ec24329 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -33,7 +33,7 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 {
     struct labels_t* lbl;
     struct batch_script_t script;
-    size_t size = strlen(lpLabelName);
+    size_t size = lpLabelName ? strlen(lpLabelName) : 0;
     int new;
 
     /* If neither label nor filename are given or if interactive mode */
@@ -81,7 +81,9 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        if (new)
+            pBat_FreeBatchScript(&script);
+
         return -1;
 
     }
-- 
2.43.0


From 78bf9baad27c94e4cb00d4b0e34e58782a4bef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 002/173] fix: initialise the error flag of the script change
 detection

---
 pbat/core/pBat_ReadScript.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..5f5bb56 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -322,7 +322,7 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
 /* Check batch script changes */
 int pBat_CheckBatchScriptChanges(struct batch_script_t* script)
 {
-    int ret, err;
+    int ret, err = 0;
 
     ret = (script->size != pBat_GetScriptSize(script, &err));
 
-- 
2.43.0


From 5c122854e363ea6ffb786fa39c36d93e4bf7b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 003/173] fix: order unused environment slots consistently

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..0d3c1a4 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -37,7 +37,7 @@ int pBat_EnvCompName(const void* p1, const void* p2)
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        return (pVar1->name == NULL) - (pVar2->name == NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
-- 
2.43.0


From 22636e4050fbf7dc1a5e8649e81acc5a76cf5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 004/173] fix: clamp %var:~begin,length% to the bounds of the
 variable

---
 pbat/core/pBat_Var.c | 91 +++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 64 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..1973f5a 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -133,6 +133,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 	int         iVarState=0, /* the status of the var interpreter 1 means replace, 2 means cut */
 	            iTotalLen,
 	            iBegin=0, /* the start position */
+	            iEnd, /* the end position */
 	            iLen=0; /* the lenght to be cut */
 
 	char        cCharSave=0; /* the backup of the character replaced by '\0' */;
@@ -230,75 +231,37 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
         iTotalLen=strlen(lpVarContent);
 #endif // PBAT_USE_LIBCU8
 
-		if (iBegin < 0) {
+		/* negative positions are counted from the end of the string,
+		   positions outside of the string are brought back to its
+		   bounds */
+		if (iBegin < 0)
+			iBegin = (iBegin < -iTotalLen) ? 0 : iTotalLen + iBegin;
 
-            if (iLen > 0) {
+		else if (iBegin > iTotalLen)
+			iBegin = iTotalLen;
 
-                if ( (iTotalLen+iBegin) >= iLen)
-                    iBegin = iTotalLen + iBegin;
+		if (lpNextToken == NULL)
+			iEnd = iTotalLen;
 
-            } else {
+		else if (iLen < 0)
+			iEnd = (iLen < -iTotalLen) ? 0 : iTotalLen + iLen;
 
-                if ( iBegin <= iLen )
-                    iBegin = iTotalLen + iBegin;
+		else
+			iEnd = (iLen > iTotalLen - iBegin) ? iTotalLen : iBegin + iLen;
 
-            }
-
-        }
-
-        if (iBegin < 0 || iBegin > iTotalLen) {
-
-
-			/* skip because these values are not valid
-			    indeed iBegin must not be negative and
-			    must not overflow the buffer */
-
-			    lpVarContent = "";
-
-		} else if (iLen > 0) {
-
-			if ((iBegin+iLen)<= iTotalLen) {
-				/* if the strings is right */
-
-#ifdef PBAT_USE_LIBCU8
-                lpZeroPos = pBat_SkipU8Chars(lpVarContent, iBegin+iLen);
-                lpVarContent = pBat_SkipU8Chars(lpVarContent, iBegin);
-#else
-                lpZeroPos=lpVarContent+iBegin+iLen;
-                lpVarContent+=iBegin;
-#endif /* PBAT_USE_LIBCU8 */
-				cCharSave=*lpZeroPos;
-				*lpZeroPos='\0';
-
-			} else
-                lpVarContent = "";
-
-
-		} else if (iLen <= 0) {
-
-			if (abs(iLen) <= iTotalLen-iBegin) {
-
-				/* if the string is right too
-				   but the lenght given is negative, such as -3
-				   (ie. truncate 3 characters before the end of
-				   the string)
-				*/
+		if (iEnd < iBegin)
+			iEnd = iBegin;
 
 #ifdef PBAT_USE_LIBCU8
-                lpZeroPos=pBat_SkipU8Chars(lpVarContent, iTotalLen+iLen);
-                lpVarContent =pBat_SkipU8Chars(lpVarContent, iBegin);
+		lpZeroPos = pBat_SkipU8Chars(lpVarContent, iEnd);
+		lpVarContent = pBat_SkipU8Chars(lpVarContent, iBegin);
 #else
-				lpZeroPos = lpVarContent+iTotalLen+iLen;
-				lpVarContent+=iBegin;
+		lpZeroPos = lpVarContent + iEnd;
+		lpVarContent += iBegin;
 #endif /* PBAT_USE_LIBCU8 */
-				cCharSave=*lpZeroPos;
-				*lpZeroPos='\0';
-
+		cCharSave=*lpZeroPos;
+		*lpZeroPos='\0';
 
-			} else
-                lpVarContent = "";
-
-		}
 	}
 
 	pBat_EsCpy(lpRecieve, lpVarContent);
@@ -496,8 +459,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             pBat_EsCpy(lpRecieve, ifIn.lpFileName);
         else
             lpPos=pBat_EsToFullPath(lpRecieve);
-
-
+
+
 		stat(lpRecieve->str, &stFileInfo);
 
 #if defined WIN32
@@ -510,7 +473,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
         /* Override the content of %0 to be the current path */
         if (cVarName == '0')
             pBat_EsCpy(lpRecieve, ifIn.lpFileName);
-        else
+        else
             pBat_EsToFullPath(lpRecieve);
 
 		pBat_SplitPath(lpRecieve->str, lpDrive, lpDir, lpFileName, lpExt);
@@ -522,8 +485,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 
 		*pBat_EsToChar(lpRecieve) = '\0';
 
-		for (i=0; cFlag[i]!=0; i++) {
-
+		for (i=0; cFlag[i]!=0; i++) {
+
 			switch (cFlag[i]) {
 
 			case 'f':
-- 
2.43.0


From b2abaeed7c7d7861c3d98d8bb5f24b939b3de04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 005/173] fix: do not loop forever replacing an empty pattern

---
 libpbat/estr/pBat_Estr.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c649590..5b04822 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -415,7 +415,13 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    /* an empty pattern matches nothing */
+    if (iLength == 0)
+        return 0;
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=strstr(lpBuffer, ptrPattern))) {
 
@@ -464,7 +470,13 @@ LIBPBAT int pBat_EsReplaceI(ESTR* ptrESTR, const char* ptrPattern, const char* p
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    /* an empty pattern matches nothing */
+    if (iLength == 0)
+        return 0;
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=(char *)stristr(lpBuffer, ptrPattern))) {
 
-- 
2.43.0


From af747d61a2e5c564b1c9aabb91131d6fb40b597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 006/173] fix: make the case insensitive search return the
 start of the match

---
 libpbat/estr/pBat_Estr.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index 5b04822..b7cd3a8 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -443,26 +443,16 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 
 char * stristr(const char* str, const char *pattern)
 {
-    char c/*,
-         *pattern_start=pattern*/;
-    size_t size;
-
-    if (*pattern == '\0')
-        return (char *)str;
-
-    c = tolower(*pattern++);
-    size = strlen(pattern);
+    size_t size = strlen(pattern);
 
     do {
 
-        while (*str && c != tolower(*str++));
-
-        if (*str == '\0')
-            return NULL;
+        if (!strnicmp(str, pattern, size))
+            return (char *)str;
 
-    } while (strnicmp(str, pattern, size));
+    } while (*str++);
 
-    return (char *)str;
+    return NULL;
 
 }
 
-- 
2.43.0


From 6ef6811df96a9f47b599bac997574bebb50b45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 007/173] fix: do not list removed variables in SET

---
 pbat/command/pBat_Set.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..06fae56 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,9 +203,8 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (*lpLine == '\0'
-                || ((lpeEnv->envbuf[i]->name != NULL)
-                    && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
+			if ((lpeEnv->envbuf[i]->name != NULL)
+                && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine))) {
 
 				found = TRUE;
 
-- 
2.43.0


From e8b39cc87bda5b87dda2577d2c5baca5b3e520c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 008/173] fix: ignore trailing blanks in the name of a removed
 variable

---
 pbat/core/pBat_Env.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 0d3c1a4..e1757a9 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -261,18 +261,19 @@ void pBat_SetEnvEx(ENVBUF* pEnv, char* name, const char* content, int inherit)
 
     /* int i; */
 
+    if (!(namecpy = strdup(name)))
+        goto error;
+
+    pBat_AdjustVarName(namecpy);
+
     if (content == NULL || *content == '\0') {
 
-        pBat_UnSetEnv(pEnv, name);
+        pBat_UnSetEnv(pEnv, namecpy);
+        free(namecpy);
     	return;
 
     }
 
-    if (!(namecpy = strdup(name)))
-        goto error;
-
-    pBat_AdjustVarName(namecpy);
-
     key.content = NULL;
     key.name = namecpy;
 
-- 
2.43.0


From 8fc5722c54b5b40d5b11289c95466676f6c1c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 009/173] fix: make ENDLOCAL revert the options set by SETLOCAL

---
 pbat/command/pBat_Setlocal.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..95537fb 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -61,6 +61,8 @@ int pBat_CmdSetLocal(char* lpLine)
 	char* lpNext=lpLine+8;
 	int push = 1,
         status = PBAT_NO_ERROR;
+	char bDelayed = bDelayedExpansion, /* options to be restored by ENDLOCAL */
+	     bCorrect = bCmdlyCorrect;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
 
@@ -124,8 +126,13 @@ int pBat_CmdSetLocal(char* lpLine)
 
 	}
 
-	if (push)
+	if (push) {
+
         pBat_PushEnvStack();
+        lpesEnv->bDelayedExpansion = bDelayed;
+        lpesEnv->bCmdlyCorrect = bCorrect;
+
+	}
 
 	return iErrorLevel;
 }
-- 
2.43.0


From 37f35c7e11280f0c475f7f05ed3ba6c7a07e9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 010/173] fix: give SET /A logical and bitwise operators their
 documented precedence

---
 libfasteval/lib/parser.y | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 3e1e63e..2823814 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -104,8 +104,11 @@ extern void input_reset (void);
 /* Grammar terminal symbols.  */
 %token <number> NUMBER CONSTANT
 %token <name> FUNCTION VARIABLE
-%left '|' 'o' '^'
-%left '&' 'a'
+%left 'o'
+%left 'a'
+%left '|'
+%left '^'
+%left '&'
 %left '>' '<'
 %left '-' '+'
 %left '*' '/' '%'
-- 
2.43.0


From 8465266e5436cd41a05d59a667de987f26eac782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 011/173] fix: do not crash on integer divisions by zero in SET
 /A

---
 libfasteval/lib/parser.y | 13 ++++++++++---
 pbat/command/pBat_Set.c  | 11 +++--------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 2823814..89c739c 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -143,14 +143,21 @@ expression
   INT_FLOAT_OP(*, $$, $1, $3);
 }
 | expression '/' expression {
-  INT_FLOAT_OP(/, $$, $1, $3);
+
+  /* an integer division by zero has no integer result, it gives the same
+     inf or nan as a floating point one */
+  $$.is_double  = $1.is_double || $3.is_double || $3.i == 0;
+  if (!($$.is_double))
+    $$.i = ($3.i == -1) ? -$1.i : $1.i / $3.i;
+  $$.d = $1.d / $3.d;
+
 }
 | expression '%' expression {
 
   /* modulo may use integer operator % or fmod function */
-  $$.is_double  = $1.is_double || $3.is_double;
+  $$.is_double  = $1.is_double || $3.is_double || $3.i == 0;
   if (!($$.is_double))
-    $$.i = $1.i % $3.i;
+    $$.i = ($3.i == -1) ? 0 : $1.i % $3.i;
   $$.d = fmod($1.d, $3.d);
 
 }
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 06fae56..2b47f11 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -430,12 +430,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 #define OPERATE_INT(op1, op, op2) \
     (double)(((int)op1) op ((int)(op2)))
 
-#define OPERATE(op1, op, op2, mode) \
-    ((!mode) ? \
-        (OPERATE_INT(op1, op, op2)) \
-        : \
-        (op1 op op2))
-
 
 	switch (cLeftAssign) {
 
@@ -457,8 +451,9 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 					break;
 
 				case '/':
-					dVal = OPERATE(dVal, /,
-                                    dResult, fmode);
+					dVal /= dResult;
+					if (!fmode)
+						dVal = trunc(dVal);
 					break;
 
                 case '%':
-- 
2.43.0


From 54416cd05920f850dc00494e48ca07c8ffa31f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 012/173] fix: recognise the logical negation operator in SET
 /A

---
 libfasteval/lib/scanner.l | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index 87e4b08..adc8f3e 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -74,8 +74,8 @@ integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
 function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
-nodelim	   [^+\-*%/&>~<%\|=()^\n\t ]
-nodelimnb  [^+\-*%/&>~<%\|=()^\n\t 0-9]
+nodelim	   [^+\-*%/&>~!<%\|=()^\n\t ]
+nodelimnb  [^+\-*%/&>~!<%\|=()^\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
 %%
 
@@ -115,6 +115,10 @@ identifier {nodelim}*{nodelimnb}*{nodelim}*
 		return '~';
 }
 
+"!" {
+		return '!';
+}
+
 ">>" {
   return '>';
 }
-- 
2.43.0


From 51f64f2d4d5d1d3b0ac6b7c6ffb9029dd04ff7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 013/173] fix: use the value of the variable in SET /A
 var&&=... and var||=...

---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 2b47f11..9658bc0 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -485,9 +485,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			*(lpEqual-1)='\0';
 
-			pBat_AdjustVarName(lpVarName);
-			dVal=_pBat_SetGetVar(lpVarName);
-
 			if (lpVarName != (lpEqual-1)) {
 
 				if (*(lpEqual-2) == cLeftAssign) {
@@ -499,6 +496,9 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			}
 
+			pBat_AdjustVarName(lpVarName);
+			dVal=_pBat_SetGetVar(lpVarName);
+
 			switch (cLeftAssign) {
 
 				case '|':
-- 
2.43.0


From b1e44114be0ec6f6dac44cc853c73a1edf83bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 014/173] fix: support shifts in SET /A var<<=... and var>>=...

---
 pbat/command/pBat_Set.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 9658bc0..9c3a946 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -519,6 +519,29 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 			break;
 
 
+		case '<':
+		case '>':
+
+			/* a shift has its operator sign doubled */
+			if (lpEqual - lpVarName >= 2
+				&& *(lpEqual-2) == cLeftAssign) {
+
+				*(lpEqual-2)='\0';
+
+				pBat_AdjustVarName(lpVarName);
+				dVal=_pBat_SetGetVar(lpVarName);
+
+				if (cLeftAssign == '<')
+					dVal = OPERATE_INT(dVal, <<, dResult);
+				else
+					dVal = OPERATE_INT(dVal, >>, dResult);
+
+				break;
+
+			}
+
+			/* fall through */
+
 		default:
 			dVal=dResult;
 
-- 
2.43.0


From 8c283e8dd9b0422ba628bfbce5301dcc74d1cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 015/173] fix: do not assign a negative zero in integer SET /A
 expressions

---
 pbat/command/pBat_Set.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 9c3a946..e91f9a5 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -547,6 +547,10 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 	}
 
+	/* there is no negative zero amongst integers */
+	if (!fmode)
+		dVal += 0.0;
+
 	snprintf(lpResult, sizeof(lpResult), "%.14g", dVal);
 
     if (!bIsScript)
-- 
2.43.0


From 52951452ca693b29fbce3e9cb176d46691d03c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 016/173] fix: provide the log10 function of SET /A

---
 libfasteval/lib/fasteval.c | 4 ++--
 libfasteval/lib/scanner.l  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libfasteval/lib/fasteval.c b/libfasteval/lib/fasteval.c
index 2fba6d9..a0ba2b4 100644
--- a/libfasteval/lib/fasteval.c
+++ b/libfasteval/lib/fasteval.c
@@ -81,7 +81,7 @@ double evaluate_function(const char *name, double arg)
     "abs", "acos", "acosh", "acot", "acoth", "acsc",
     "acsch", "asec", "asech", "asin", "asinh", "atan",
     "atanh", "cos", "cosh", "cot", "coth", "csc", "csch",
-    "delta", "erf", "exp", "log", "nandelta", "sec", "sech",
+    "delta", "erf", "exp", "log", "log10", "nandelta", "sec", "sech",
     "sin", "sinh", "sqrt", "step", "tan", "tanh",
 	};
 
@@ -89,7 +89,7 @@ double evaluate_function(const char *name, double arg)
     fabs, acos, acosh, math_acot, math_acoth, math_acsc,
     math_acsch, math_asec, math_asech, asin, asinh, atan,
     atanh, cos, cosh, math_cot, math_coth, math_csc, math_csch,
-    math_delta, erf, exp, log, math_nandelta, math_sec, math_sech,
+    math_delta, erf, exp, log, log10, math_nandelta, math_sec, math_sech,
     sin, sinh, sqrt, math_step, tan, tanh,
   };
 
diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index adc8f3e..7b201e3 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -73,7 +73,7 @@ digit [0-9]
 integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
-function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
+function "exp"|"log"|"log10"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
 nodelim	   [^+\-*%/&>~!<%\|=()^\n\t ]
 nodelimnb  [^+\-*%/&>~!<%\|=()^\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
-- 
2.43.0


From a38a8d76375693881c6c9f077cf40acd01161009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 017/173] fix: keep the trailing blanks of inherited
 environment variables

---
 pbat/core/pBat_Env.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index e1757a9..68e3798 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -193,10 +193,10 @@ error:
 
         }
 
-        pBat_AdjustVarName(pStr);
-
         *(pCh++) = '\0';
 
+        pBat_AdjustVarName(pStr);
+
         pBuf[nb] = pBat_AllocEnvVar(pStr, pCh);
 
         free(pStr);
-- 
2.43.0


From 9aa3a973797d76de5df1bee90687f59adfff0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 018/173] fix: start a script that CALLs itself from its first
 line

---
 pbat/command/pBat_Call.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..72ee255 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -269,6 +269,7 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		ifIn.bEof=FALSE;          /* the file is not at EOF */
 		ifIn.iPos=0;              /* places the cursor at the origin */
+		*(ifIn.batch.name)='\0';  /* load the file, even if it is the caller */
 		snprintf(ifIn.lpFileName,
 		         sizeof(ifIn.lpFileName),
 		         "%s",
-- 
2.43.0


From 8087c03f20b72b13e7b6252d01ee90ba0ff51abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 019/173] fix: accept SHIFT /7

---
 pbat/command/pBat_Shift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index cfad794..fdd5ace 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -76,6 +76,7 @@ int pBat_CmdShift(char* lpLine)
 				case '4':
 				case '5':
 				case '6':
+				case '7':
 				case '8':
 				case '9':
 					iBegin=*lpToken-'0'; /* well, we assume that all numbers
-- 
2.43.0


From 9ce259e47eef682581156ca3d3a7522da9a6b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 020/173] fix: keep empty parameters beyond the ninth one and
 in %*

---
 pbat/command/pBat_Call.c | 4 ++++
 pbat/init/pBat_Init.c    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 72ee255..75908ad 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -324,6 +324,10 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
             pBat_EsReplace(lpEsParam, "\t", "^\t");
             pBat_EsReplace(lpEsParam, "\"", "^\"");
 
+            /* an empty parameter would be lost if it was not quoted */
+            if (*(pBat_EsToChar(lpEsParam)) == '\0')
+                pBat_EsCpy(lpEsParam, "\"\"");
+
             pBat_EsCatE(lpEsCmd, lpEsParam);
             pBat_EsCat(lpEsCmd, " ");
 
diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..b448418 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -65,7 +65,7 @@ void pBat_AssignCommandLine(int c, char** argv)
         pBat_EsCpy(lpEsParam, *argv);
         pBat_EsReplace(lpEsParam, "\"", "^\""); /* escape parenthesis */
 
-        if (strpbrk(*argv, delims)) {
+        if (**argv == '\0' || strpbrk(*argv, delims)) {
 
             pBat_EsCat(lpEsStr, "\"");
             pBat_EsCatE(lpEsStr, lpEsParam);
-- 
2.43.0


From 44221b1d39e2f1c7c2a2ecaa5f33e0e0d23461e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 021/173] fix: flush the pending output before running external
 programs

---
 pbat/core/pBat_Exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..87edbf9 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -291,6 +291,10 @@ int pBat_RunFile(EXECINFO* info, int* error)
                                 __FILE__ "/pBat_RunFile()",
                                 -1);
 
+	/* what is still buffered comes before the output of the program */
+	fflush(fOutput);
+	fflush(fError);
+
 	iPid=fork();
 
 	if (iPid == 0 ) {
@@ -549,6 +553,10 @@ int pBat_StartFile(EXECINFO* info, int* error)
     if (!script)
         script = START_SCRIPT;
 
+    /* what is still buffered comes before the output of the program */
+    fflush(fOutput);
+    fflush(fError);
+
     pid = fork();
 
     if (pid == 0) {
-- 
2.43.0


From 48908b935a0b4639ac5b32aba745b7e2d1f878d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 022/173] fix: ignore trailing blanks in the prefix listed by
 SET

---
 pbat/command/pBat_Set.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index e91f9a5..d950251 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -192,6 +192,7 @@ int pBat_CmdSet(char *lpLine)
 	if (nok == 1) {
 
 		lpLine = pBat_SkipBlanks(lpLine+3);
+		pBat_AdjustVarName(lpLine);
 
 		/* if a variable have been found,
 		   this variable vary usually
-- 
2.43.0


From ec9f36fd4e26e434078bb3748a99511542592fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 023/173] fix: do not pass removed variables to external
 programs

---
 pbat/core/pBat_Env.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 68e3798..4693abf 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -404,6 +404,12 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
     int i;
     ESTR* exp = pBat_EsInit_Cached();
 
+    #if !defined(WIN32)
+    /* the variables which have been removed must not be inherited */
+    static char* empty[] = {NULL};
+    environ = empty;
+    #endif
+
     for (i=0; i < pEnv->index; i++) {
 
         if (pEnv->envbuf[i]->name == NULL)
-- 
2.43.0


From 957a177b32f037b6911545d72dd0ebe2b4a2e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 024/173] fix: accept the DISABLEEXTENSIONS option of SETLOCAL

---
 pbat/command/pBat_Setlocal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 95537fb..e6422ac 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -106,7 +106,7 @@ int pBat_CmdSetLocal(char* lpLine)
             return PBAT_UNABLE_SET_OPTION;
 #endif
 		}  else if (!stricmp(lpName, "ENABLEEXTENSIONS")
-             || !stricmp(lpName, "DISABLEEXTENSION")) {
+             || !stricmp(lpName, "DISABLEEXTENSIONS")) {
 
 			/* provided for backward compatibility. The ENABLEEXTENSIONS
 			   option was used to block some NT features to make scripts portables
-- 
2.43.0


From fcaae214795273864db3372a4f423b782041238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 025/173] fix: do not crash on IF ERRORLEVEL and test the
 documented condition

---
 pbat/command/pBat_If.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..0374e56 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,7 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+    ret = (iErrorLevel >= atoi(val));
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From 7e81f43c752c2b56326f47442dd93a0e9be55090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 026/173] fix: do not take empty strings for the number 0 in IF
 comparisons

---
 pbat/command/pBat_If.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..cd32560 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -451,7 +451,8 @@ int pBat_GetCmpValue(const char* number, double* value)
         else /* Double mode chosen */
             *value = strtod(number, &end);
 
-        if (*pBat_SkipBlanks(end) != '\0'){
+        /* a string without any digit is not a number */
+        if (end == number || *pBat_SkipBlanks(end) != '\0'){
             if (f == 0)
                 f = 1;
             else
-- 
2.43.0


From f476ae44d0517a6adea2a1cbcc685f415cab4871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 027/173] fix: honour NOT in every form of IF comparison

---
 pbat/command/pBat_If.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index cd32560..292d7eb 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -223,6 +223,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
             }
 
+            if (iFlag & PBAT_IF_NEGATION)
+                iResult=!iResult;
+
 		 } else if (lpNext) {
 
 			if ((lpToken=strstr(pBat_EsToChar(lpComparison), "=="))) {
@@ -299,6 +302,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
                 }
 
+                if (iFlag & PBAT_IF_NEGATION)
+                    iResult=!iResult;
 
 			}
 		} else {
-- 
2.43.0


From 688370182435e6a7591e4786cdd3b0f3e6ed93d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 028/173] fix: evaluate the right hand side of AND in IF
 expressions

---
 pbat/command/pBat_IfExp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..9db2c98 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,10 +134,12 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND) {
+
         if (!res1)
             return 0;
-    else if (res2)
+
+    } else if (res1)
         return 1;
 
     if (exp->child2.type == IFEXP_NODE_OPS) {
-- 
2.43.0


From 7f42799c778a910f2df200403f4171ba295db38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 029/173] fix: give AND precedence over OR in IF expressions

---
 pbat/command/pBat_IfExp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 9db2c98..608efef 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -239,23 +239,23 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (!(exp = malloc(sizeof(ifexp_t))))
         return NULL;
 
-    if (pBat_IfExp_Cut("AND", &line, &rhs)) {
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_AND;
+        exp->type = IFEXP_OR;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
 
 
-    } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_OR;
+        exp->type = IFEXP_AND;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
-- 
2.43.0


From e3d853d19e1cdda48cedfe4a3c04588367ccbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 030/173] fix: do not read before the left operand of IF when
 it is empty

---
 pbat/command/pBat_If.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 292d7eb..981ac5d 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -244,7 +244,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 				*/
 				char *q = (lpToken2 + strlen(lpToken2) - 1);
 
-				if (*q == '"') {
+				if (*lpToken2 && *q == '"') {
 					*q = '\0';
 					lpToken++;
 				}
-- 
2.43.0


From a96407eb6c26e374b0c541f05cac2a00d7c5647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 031/173] fix: honour == inside the operands of the basic-like
 IF comparisons

---
 pbat/command/pBat_If.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 981ac5d..d38515e 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -40,6 +40,23 @@
         IF [NOT] ERRORLEVEL code (...) -> DEPRECATED !
 */
 
+/* Is the next parameter of the line one of the basic-like comparators? */
+static int pBat_IfIsComparator(char* lpParam)
+{
+    static const char* const cmps[] = {"EQU", "NEQ", "LSS", "LEQ", "GTR", "GEQ"};
+    char cmp[11];
+    int i;
+
+    if (!pBat_GetNextParameter(lpParam, cmp, sizeof(cmp)))
+        return 0;
+
+    for (i = 0; i < sizeof(cmps) / sizeof(*cmps); i ++)
+        if (!stricmp(cmp, cmps[i]))
+            return 1;
+
+    return 0;
+}
+
 int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 {
 	char lpArgument[FILENAME_MAX], *lpNext, *lpToken, *lpToken2 /*, *lpEnd */;
@@ -228,7 +245,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
 		 } else if (lpNext) {
 
-			if ((lpToken=strstr(pBat_EsToChar(lpComparison), "=="))) {
+			/* the basic-like comparisons are not subject to the == bug */
+			if (!pBat_IfIsComparator(lpNext)
+                && (lpToken=strstr(pBat_EsToChar(lpComparison), "=="))) {
 				/* if script uses old c-style comparison */
 				*lpToken='\0';
 				lpToken+=2;
-- 
2.43.0


From 37a59795bb6c36d13cc3c9390c77c12ff28cb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 032/173] fix: do not expand twice the parameters of external
 programs

---
 pbat/core/pBat_Args.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 83ab27f..dd8075e 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -305,7 +305,6 @@ struct PARAMLIST* pBat_GetParamList(char* lpLine)
         next->next = NULL;
         next->param = lpParam;
 
-		pBat_DelayedExpand(lpParam);
 
 		lpParam=pBat_EsInit_Cached();
 
-- 
2.43.0


From 788372fadfb002ac1d83053b69c0b63d8d13d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 033/173] fix: do not mix the default token into the first
 token selected by FOR /F

---
 pbat/command/pBat_For.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..8fb45d6 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -859,7 +859,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 last = start;
@@ -882,7 +882,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         goto infos_overflow;
 
                     /* write a cat token to infos */
-                    infos->lpToken[i]|=TOHIGH(start)+TOLOW(end);
+                    infos->lpToken[i]=TOHIGH(start)+TOLOW(end);
                     i++;
 
                 } else {
@@ -895,7 +895,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         if (i >= TOKENINFO_NB_MAX )
                             goto infos_overflow;
 
-                        infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                        infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                         i++;
 
                         start ++;
@@ -963,7 +963,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 start ++;
-- 
2.43.0


From ab07d84d7a9fd646f39ad6f2d75983b8c43f84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 034/173] fix: do not skip the empty lines of FOR /F input

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8fb45d6..dd3d172 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -587,7 +587,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 		} else {
 
             /* If the line starts with one of the EOL characters, just skip it */
-            if ((lpfrInfo->lpEol[0] != '\0')
+            if ((*(lpInputToP->str) != '\0')
                 && (strchr(lpfrInfo->lpEol, *(lpInputToP->str))))
                 continue;
 
-- 
2.43.0


From c562aa13b12a2aad59c6221b474f7f4174115a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 035/173] fix: read the attributes FOR uses to keep directories
 out of its matches

---
 pbat/command/pBat_For.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index dd3d172..5a5894a 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -440,8 +440,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
                 /* We came across a reg expression, just launch a search */
                 files = pBat_GetMatchFileList(pBat_EsToFullPath(lpesStr),
-                                                PBAT_SEARCH_NO_PSEUDO_DIR
-                                                | PBAT_SEARCH_NO_STAT);
+                                                PBAT_SEARCH_NO_PSEUDO_DIR);
 
                 pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                              files,
-- 
2.43.0


From 0669cc3a429653a7013d0317dee2490dcaf0df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 036/173] fix: do not loop forever on the colon delimiter of
 FOR

---
 pbat/command/pBat_For.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 5a5894a..fd9a6f5 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -361,6 +361,14 @@ error:
 	return status;
 }
 
+static char* pBat_ForSkipColons(char* lpToken)
+{
+    while (lpToken && (*(lpToken = pBat_SkipBlanks(lpToken)) == ':'))
+        lpToken ++;
+
+    return lpToken;
+}
+
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 								char* lpDelimiters)
 {
@@ -375,8 +383,11 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
     FILELIST *files = NULL,
              *item = NULL;
 
+	/* pBat_GetParameterPointers() only skips blanks, get over the other
+	   delimiters too */
 	while ((files != NULL)
-           || (lpToken != NULL && pBat_GetParameterPointers(&lpBegin, &lpToken,
+           || ((lpToken = pBat_ForSkipColons(lpToken)) != NULL
+               && pBat_GetParameterPointers(&lpBegin, &lpToken,
                                                     lpDelimiters, lpToken))) {
 
         if (files != NULL) {
-- 
2.43.0


From 3bfe5ed806565e945c2b3bb5cffaf70e15cccaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 037/173] fix: do not search the root directory in FOR /R and
 FOR /D without base directory

---
 pbat/command/pBat_For.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index fd9a6f5..e790073 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1617,9 +1617,13 @@ int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute,
 	pBat_EsCpy(lpCommandLine, "'DIR /b /s ");
 	pBat_EsCat(lpCommandLine, lpAttribute);
 	pBat_EsCat(lpCommandLine, " ");
-	pBat_Canonicalize(lpDir->str);
-	pBat_EsCatE(lpCommandLine, lpDir);
-	pBat_EsCat(lpCommandLine, "/");
+	if (*(lpDir->str) != '\0') {
+
+		pBat_Canonicalize(lpDir->str);
+		pBat_EsCatE(lpCommandLine, lpDir);
+		pBat_EsCat(lpCommandLine, "/");
+
+	}
 	pBat_EsCatE(lpCommandLine, lpMask);
 	pBat_EsCat(lpCommandLine, "'");
 
-- 
2.43.0


From f936a8c510102adad3fd0c0d10e5737177075a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 038/173] fix: check and release all the variables assigned by
 FOR /F

---
 pbat/command/pBat_For.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index e790073..c8016b7 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1155,10 +1155,12 @@ void pBat_ForVarUnassign(FORINFO* lpfrInfo)
 
 	for (i=0; i<iMax; i++) {
 
-		pBat_SetLocalVar(lpvLocalVars, cVarName+i, NULL);
+		pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
 
-		if ((cVarName+i) & 0x80)
-			break;
+		cVarName++;
+
+		if (cVarName & 0x80)
+			cVarName=0x21;
 	}
 }
 
@@ -1178,8 +1180,10 @@ int pBat_ForVarCheckAssignment(FORINFO* lpfrInfo)
 
 		}
 
+		cVarName++;
+
 		if (cVarName & 0x80)
-			break;
+			cVarName=0x21;
 	}
 
 	return PBAT_NO_ERROR;
-- 
2.43.0


From 40c8449718c941e4d13bf8735a64cdb99f0a2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 039/173] fix: end FOR /L loops that reach the greatest
 integers

---
 pbat/command/pBat_For.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index c8016b7..40bc506 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -500,6 +500,8 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
         i=0,
         status = PBAT_NO_ERROR;
 
+	long long value; /* does not overflow past INT_MAX */
+
 	char lpValue[]=STR(INT_MIN),
          *lpToken=pBat_EsToChar(lpInput),
          *lpNext;
@@ -543,11 +545,11 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 	}
 
 	/* execute loop */
-	for (i=iLoopInfo[PBAT_FORL_BEGIN];
-	     i<=iLoopInfo[PBAT_FORL_END];
-	     i+=iLoopInfo[PBAT_FORL_INC]) {
+	for (value=iLoopInfo[PBAT_FORL_BEGIN];
+	     value<=iLoopInfo[PBAT_FORL_END];
+	     value+=iLoopInfo[PBAT_FORL_INC]) {
 
-		snprintf(lpValue, sizeof(lpValue), "%d", i);
+		snprintf(lpValue, sizeof(lpValue), "%d", (int)value);
 
 		pBat_SetLocalVar(lpvLocalVars, cVarName, lpValue);
 
-- 
2.43.0


From 6dc819779718dedc817a3a193ff42f4ee8e0200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 040/173] fix: accept floating point numbers in FOR /L

---
 pbat/command/pBat_For.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 40bc506..d9af2ee 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -28,6 +28,7 @@
 #include <string.h>
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 
 #include <libpBat.h>
 
@@ -516,6 +517,9 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
                             &lpNext,
                             0);
 
+        if (*lpNext) /* floating point numbers are floored */
+            iLoopInfo[i]=(int)floor(strtod(pBat_EsToChar(lpesStr), &lpNext));
+
         if (*lpNext) {
 
             pBat_ShowErrorMessage(PBAT_FOR_BAD_INPUT_SPECIFIER,
-- 
2.43.0


From f7d30cab006ba03bbebbf393a8162edf3860f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 041/173] fix: honour the negation of the void and system file
 attributes

---
 libpbat/dir/pBat_Attr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Attr.c b/libpbat/dir/pBat_Attr.c
index 237d15e..89174c7 100644
--- a/libpbat/dir/pBat_Attr.c
+++ b/libpbat/dir/pBat_Attr.c
@@ -85,13 +85,13 @@ int pBat_CheckFileAttributes(short wAttr, const FILELIST* lpflList)
 
     if (wAttr & PBAT_CMD_ATTR_SYSTEM) {
         iResult=iAttributes & PBAT_FILE_SYSTEM;
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_SYSTEM_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
     if (wAttr & PBAT_CMD_ATTR_VOID) {
         iResult=(pBat_GetFileSize(lpflList)==0);
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_VOID_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
-- 
2.43.0


From 356c5ae2843f4380032e6f25a00722c2da8acb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 042/173] fix: let a trailing * match an empty sequence

---
 libpbat/dir/pBat_Dir.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 4b95267..0e80162 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -697,6 +697,11 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
 
     }
 
+    /* a trailing '*' matches an empty sequence */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
@@ -816,6 +821,11 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
     }
 
+    /* a trailing '*' matches an empty sequence */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
-- 
2.43.0


From 6801ace16fb97a4b75bd9f9b2fe29d374acaa69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 043/173] fix: accept blanks in the base directory of FOR /R
 and FOR /D

---
 pbat/command/pBat_For.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index d9af2ee..70e11f5 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1622,11 +1622,19 @@ int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute,
 	};
 
 	ESTR* lpCommandLine=pBat_EsInit_Cached();
+	const char* quote = "";
 
 	/* create equivalent for loop using for / */
 	pBat_EsCpy(lpCommandLine, "'DIR /b /s ");
 	pBat_EsCat(lpCommandLine, lpAttribute);
 	pBat_EsCat(lpCommandLine, " ");
+
+	/* the base directory may contain blanks */
+	if (strchr(lpMask->str, '"') == NULL)
+		quote = "\"";
+
+	pBat_EsCat(lpCommandLine, quote);
+
 	if (*(lpDir->str) != '\0') {
 
 		pBat_Canonicalize(lpDir->str);
@@ -1635,6 +1643,7 @@ int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute,
 
 	}
 	pBat_EsCatE(lpCommandLine, lpMask);
+	pBat_EsCat(lpCommandLine, quote);
 	pBat_EsCat(lpCommandLine, "'");
 
 	if (pBat_CmdForF(lpCommandLine, lpplLine, &forInfo))
-- 
2.43.0


From b2d496b1a7e357db6d8c817e3f0d1c0af628031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 044/173] fix: do not crash when a further file of FOR /F is
 missing

---
 pbat/command/pBat_For.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 70e11f5..af56b83 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1456,7 +1456,6 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo)
 
 	int iReturn=0;
 	char* lpToken;
-	char name[FILENAME_MAX];
 
 loop_begin:
     iReturn=0;
@@ -1479,13 +1478,17 @@ retry:
                 }
 
                 /* if the file list is not finished, then, open the next file */
+                fclose(lpipInfo->Info.InputFile.pFile);
+
                 if (!(lpipInfo->Info.InputFile.pFile =
                         fopen(lpipInfo->Info.InputFile.lpesFiles[
                             		lpipInfo->Info.InputFile.index
                             	]->str, "rb"))) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            name,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                            		lpipInfo->Info.InputFile.index
+                            	]->str,
                             FALSE
                             );
 
@@ -1584,7 +1587,9 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 
 		case INPUTINFO_TYPE_STREAM:
 
-            fclose(lpipInfo->Info.InputFile.pFile);
+            /* there is no file left open if the last one was missing */
+            if (lpipInfo->Info.InputFile.pFile != NULL)
+                fclose(lpipInfo->Info.InputFile.pFile);
 
 			while(lpipInfo->Info.InputFile.lpesFiles[i] != NULL) {
 
-- 
2.43.0


From e2f550b9850fd0ec2a6ae59711354023e67c9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 045/173] fix: honour the code given to EXIT

---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index cccd839..a80ff71 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -91,7 +91,7 @@ int pBat_CmdExit(char* lpLine)
 
 		} else {
 
-			ret = atoi(ntoken);
+			ret = atoi(param->str);
 
 		}
 	}
-- 
2.43.0


From 7504a478f7a5a9e3d5405c82e6f1c81c56672d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 046/173] fix: accept trailing blanks after the code given to
 EXIT /B

---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index a80ff71..6c1ead6 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -73,7 +73,7 @@ int pBat_CmdExit(char* lpLine)
 
             if ((ntoken = pBat_GetNextParameterEs(ntoken, param))) {
 
-                if (*ntoken) {
+                if (*(ntoken = pBat_SkipBlanks(ntoken))) {
 
                     pBat_ShowErrorMessage(PBAT_UNEXPECTED_ELEMENT, ntoken, 0);
                     pBat_EsFree_Cached(param);
-- 
2.43.0


From 199dd35cb3ee2814cbdc3b5fb1ef4e1198434f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 047/173] fix: do not free the stack when EXIT is run by a
 CALLed script or label

---
 pbat/command/pBat_Call.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 75908ad..7e6803c 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -234,9 +234,9 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 {
 	INPUT_FILE ifOldFile;
 	LOCAL_VAR_BLOCK* lpvOldBlock;
-	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpBlock=pBat_GetLocalBlock();
 	LOCAL_VAR_BLOCK* lpvOldArgs;
-	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpArgs=pBat_GetLocalBlock();
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
 
@@ -373,20 +373,6 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
 
-	/* free variables that have been allocated while
-	   executing the batch script (or the function) */
-
-	for (c=0; c < LOCAL_VAR_BLOCK_SIZE; c++) {
-
-        if (pBat_IsLocalVarValid(c)) {
-            /* This is really important to prevent any kind of memory
-               leakage */
-
-            pBat_SetLocalVar(lpvLocalVars, c, NULL);
-            pBat_SetLocalVar(lpvArguments, c, NULL);
-        }
-	}
-
 	/* free the newly allocated batch script */
     pBat_FreeBatchScript(&(ifIn.batch));
 
@@ -397,6 +383,12 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	lpvArguments = lpvOldArgs;
 
 error:
+	/* free variables that have been allocated while
+	   executing the batch script (or the function). The blocks are
+	   not on the stack, as EXIT frees those in use. */
+	pBat_FreeLocalBlock(lpvTmpBlock);
+	pBat_FreeLocalBlock(lpvTmpArgs);
+
 	pBat_EsFree_Cached(lpEsParam);
 	return status ? status : iErrorLevel; /* do not affect errorlevel */
 }
-- 
2.43.0


From 94d5865d2c55a485081c04e5ac7ae71e16af6217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 048/173] fix: keep the errorlevel of the commands run by IF
 and FOR

---
 pbat/command/pBat_For.c | 4 ++++
 pbat/command/pBat_If.c  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index af56b83..7f10cf8 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -347,6 +347,10 @@ int pBat_CmdFor(char* lpLine, PARSED_LINE** lpplLine)
 			status = pBat_CmdForL(lpInputBlock, line, cVarName);
 	}
 
+	/* keep the errorlevel left by the commands of the loop */
+	if (!status)
+		status = iErrorLevel;
+
 error:
 	pBat_EsFree_Cached(lpParam);
 	pBat_EsFree_Cached(lpDirectory);
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index d38515e..3fb1003 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -455,7 +455,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
     if (lpplLine)
         *lpplLine = NULL;
 
-	return 0;
+	return iErrorLevel; /* do not affect errorlevel */
 }
 
 /* Get the value from the chain pointed to by *number and return a value
-- 
2.43.0


From 59b994f3924d8272f1492ced392c5bd16400c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 049/173] fix: do not apply the operator before a FOR to each
 of its iterations

---
 pbat/core/pBat_Run.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..6709671 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -844,6 +844,10 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
 
     lookahead->lpCmdLine = cmd;
 
+    /* the operator before the IF or the FOR, if any, has already been
+       honoured, it does not apply to the command they run */
+    lookahead->cNodeType = PARSED_STREAM_NODE_NONE;
+
     return lookahead;
 }
 
-- 
2.43.0


From 2d3717ac799ccb9361e5d3c5687a285aebcd8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 050/173] fix: flush the output before running a script in a
 clone of the context

---
 pbat/core/pBat_Clone.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 7b63111..98c23c3 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -135,6 +135,10 @@ int pBat_DuplicateData(struct clone_data_t* data)
     data->ifIn.bEof = ifIn.bEof;
     data->ifIn.iPos = ifIn.iPos;
 
+    /* what is still buffered comes before the output of the clone */
+    fflush(fOutput);
+    fflush(fError);
+
 #define DUPLICATE_STREAM(dest, s, mode) \
     if ((fd = dup(fileno(s))) == -1) \
         pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
-- 
2.43.0


From 3834e7d8657820a37adcbbbd0f24456a97da3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 051/173] fix: give each iteration of FOR its own copy of the
 commands

---
 pbat/command/pBat_For.c | 24 ++++++++++++++++++++----
 pbat/core/pBat_Parse.c  | 30 ++++++++++++++++++++++++++++++
 pbat/core/pBat_Parse.h  |  1 +
 3 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 7f10cf8..2415219 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -83,6 +83,22 @@
 #include <libcu8.h>
 #endif /* libcu8 */
 
+/* Run once the body of a loop.
+
+   As running a line may alter it (nested IF and FOR, names of commands
+   obtained through expansion, DEFs...), each iteration needs its own copy. */
+static void pBat_ForRunBody(PARSED_LINE* body)
+{
+    PARSED_LINE* line;
+
+    if ((line = pBat_DuplicateParsedLine(body)) == NULL)
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_ForRunBody()", -1);
+
+    pBat_RunParsedLine(line);
+    pBat_FreeParsedLine(line);
+}
+
 int pBat_CmdFor(char* lpLine, PARSED_LINE** lpplLine)
 {
 	ESTR* lpParam=pBat_EsInit_Cached();
@@ -361,7 +377,7 @@ error:
         *lpplLine = NULL;
 
 	if (!lpplLine && line)
-        pBat_FreeParsedStream(line);
+        pBat_FreeParsedLine(line);
 
 	return status;
 }
@@ -479,7 +495,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 		pBat_SetLocalVar(lpvLocalVars, cVarName, pBat_EsToChar(lpesStr));
 
 		/* run the block */
-		pBat_RunParsedLine(lpplLine);
+		pBat_ForRunBody(lpplLine);
 
 		/* if a goto as been executed while the for-loop
 		   was ran */
@@ -563,7 +579,7 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 
 		/* execute the code */
 
-		pBat_RunParsedLine(lpplLine);
+		pBat_ForRunBody(lpplLine);
 
 
 		/* if a goto as been executed while the for-loop
@@ -614,7 +630,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 			pBat_ForSplitTokens(lpInputToP, lpfrInfo);
 			/* split the block on subtokens */
 
-			pBat_RunParsedLine(lpplLine);
+			pBat_ForRunBody(lpplLine);
 			/* split the input into tokens and then run the
 			    block */
 		}
diff --git a/pbat/core/pBat_Parse.c b/pbat/core/pBat_Parse.c
index 93ac257..6268893 100644
--- a/pbat/core/pBat_Parse.c
+++ b/pbat/core/pBat_Parse.c
@@ -529,3 +529,33 @@ err:
 
     return NULL;
 }
+
+/* Duplicate a whole line, that is all the commands from line on */
+PARSED_LINE* pBat_DuplicateParsedLine(PARSED_LINE* line)
+{
+    PARSED_LINE *ret = NULL, *last = NULL;
+
+    for (; line; line = line->lppsNode) {
+
+        if (!(last = pBat_AllocParsedLine(last)))
+            goto err;
+
+        if (!ret)
+            ret = last;
+
+        pBat_EsCpyE(last->lpCmdLine, line->lpCmdLine);
+        last->cNodeType = line->cNodeType;
+
+        if (line->sStream
+            && !(last->sStream = pBat_DuplicateParsedStream(line->sStream)))
+            goto err;
+
+    }
+
+    return ret;
+
+err:
+    pBat_FreeParsedLine(ret);
+
+    return NULL;
+}
diff --git a/pbat/core/pBat_Parse.h b/pbat/core/pBat_Parse.h
index 6a09c1c..00f83c6 100644
--- a/pbat/core/pBat_Parse.h
+++ b/pbat/core/pBat_Parse.h
@@ -68,6 +68,7 @@ PARSED_STREAM* pBat_AllocParsedStream(void);
 void pBat_FreeParsedLine(PARSED_LINE* lppsStream);
 void pBat_FreeParsedStream(PARSED_STREAM* lppssStart);
 PARSED_STREAM* pBat_DuplicateParsedStream(PARSED_STREAM* stream);
+PARSED_LINE* pBat_DuplicateParsedLine(PARSED_LINE* line);
 
 #define pBat_FreeLine(lpssStreamStart) pBat_FreeParsedLine(lpssStreamStart)
 
-- 
2.43.0


From 7c2542ef0d0fc2bac08996d2aded6583ac198952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 052/173] fix: let IF and FOR nested on one line swallow the
 rest of the line

---
 pbat/command/pBat_For.c |  8 ++++++--
 pbat/command/pBat_If.c  | 19 ++++++++++++-------
 pbat/core/pBat_Run.c    | 16 +++++++++++++---
 pbat/core/pBat_Run.h    |  3 ++-
 4 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 2415219..f066875 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -125,6 +125,7 @@ int pBat_CmdFor(char* lpLine, PARSED_LINE** lpplLine)
 	char* lpVarName;
 
 	int iForType=FOR_LOOP_SIMPLE,
+        isBlock,
         status = PBAT_NO_ERROR;
 
 	while ((lpToken = pBat_GetNextParameterEs(lpToken, lpParam))) {
@@ -310,7 +311,9 @@ int pBat_CmdFor(char* lpLine, PARSED_LINE** lpplLine)
 
     lpToken = pBat_SkipBlanks(lpToken);
 
-    if (*lpToken != '(') {
+    isBlock = (*lpToken == '(');
+
+    if (!isBlock) {
         lpToken = pBat_GetBlockLine(lpToken, &bkCode);
     } else {
         lpToken = pBat_GetNextBlock(lpToken, &bkCode);
@@ -333,7 +336,8 @@ int pBat_CmdFor(char* lpLine, PARSED_LINE** lpplLine)
 
     /* Beware after this line ! There is a quite high probability that lpLine
        will get somehow freed */
-    line = pBat_LookAHeadMakeParsedLine(&bkCode, lpplLine ? *lpplLine : NULL) ;
+    line = pBat_LookAHeadMakeParsedLine(&bkCode, lpplLine ? *lpplLine : NULL,
+                                            isBlock);
 
 	switch(iForType) {
 
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 3fb1003..dc2f5a3 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -61,7 +61,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 {
 	char lpArgument[FILENAME_MAX], *lpNext, *lpToken, *lpToken2 /*, *lpEnd */;
 	int iFlag=0,
-	    iResult;
+	    iResult,
+	    isBlock;
     PARSED_LINE* line;
 
 	ESTR *lpComparison, *lpOtherPart;
@@ -346,7 +347,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
     if (iResult) {
 
-        if (*lpNext != '(') {
+        isBlock = (*lpNext == '(');
+
+        if (!isBlock) {
             /* if the command does not start with a '(' get
                 the full line of blocks that follow the command */
             lpNext=pBat_GetBlockLine(lpNext, &bkInfo);
@@ -364,9 +367,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
         /* refactor line */
         if (lpplLine && !*lpToken2)
-            line = pBat_LookAHeadMakeParsedLine(&bkInfo, *lpplLine);
+            line = pBat_LookAHeadMakeParsedLine(&bkInfo, *lpplLine, isBlock);
         else
-            line = pBat_LookAHeadMakeParsedLine(&bkInfo, NULL);
+            line = pBat_LookAHeadMakeParsedLine(&bkInfo, NULL, isBlock);
 
         pBat_RunParsedLine(line);
 
@@ -389,7 +392,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
                 lpNext=pBat_SkipBlanks(lpNext+4);
 
-                if (*lpNext != '(') {
+                isBlock = (*lpNext == '(');
+
+                if (!isBlock) {
                     /* if the command does not start with a '(' get
                         the full line of blocks that follow the command */
                     lpNext=pBat_GetBlockLine(lpNext, &bkInfo);
@@ -417,9 +422,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
                 } else {
 
                     if (lpplLine)
-                        line = pBat_LookAHeadMakeParsedLine(&bkInfo, *lpplLine);
+                        line = pBat_LookAHeadMakeParsedLine(&bkInfo, *lpplLine, isBlock);
                     else
-                        line = pBat_LookAHeadMakeParsedLine(&bkInfo, NULL);
+                        line = pBat_LookAHeadMakeParsedLine(&bkInfo, NULL, isBlock);
 
                     pBat_RunParsedLine(line);
 
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 6709671..da695d8 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -812,9 +812,15 @@ int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments
    that will either be executed later or not depending on the
    command.
 
+   isblock tells that block is the content of a ( ) block. If it is not and
+   starts with a lookAHead command, then this command swallows the bits on
+   the right in turn.
+
    if lookahead is NULL a new PARSED_LINE will be malloc'd */
-PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahead)
+PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block,
+                                    PARSED_LINE* lookahead, int isblock)
 {
+    char* pch = pBat_SkipAllBlanks(block->lpBegin);
 	ESTR* cmd = pBat_EsInit_Cached();
 
     if (!lookahead) {
@@ -835,9 +841,13 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
         }
     }
 
-    pBat_EsCpy(cmd, "(");
+    isblock = isblock
+                || !((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch + 2)))
+                     || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3))));
+
+    pBat_EsCpy(cmd, isblock ? "(" : "");
 	pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
-    pBat_EsCat(cmd, ")");
+    pBat_EsCat(cmd, isblock ? ")" : "");
 
     if (lookahead->lpCmdLine)
         pBat_EsFree_Cached(lookahead->lpCmdLine);
diff --git a/pbat/core/pBat_Run.h b/pbat/core/pBat_Run.h
index e85a8d6..351dacf 100644
--- a/pbat/core/pBat_Run.h
+++ b/pbat/core/pBat_Run.h
@@ -69,7 +69,8 @@ int pBat_RunExternalFile(char* lpFileName, char* lpFullLine, char** lpArguments)
 
 int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments);
 
-PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block,PARSED_LINE* lookahead);
+PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block,
+                                    PARSED_LINE* lookahead, int isblock);
 
 #ifndef WIN32
 
-- 
2.43.0


From a5fe98e027f5ccf46a4afd090c5634ad696e2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 053/173] fix: forget the end of the previous input when it is
 redirected

---
 pbat/core/pBat_Stream.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 2dc1805..fc54752 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -88,9 +88,10 @@
             if (!isatty(fileno(s))) \
                 lseek(fileno(s), ftell(s), SEEK_SET); \
             fflush(s); \
+            clearerr(s); /* the end of the previous file does not matter */ \
             __PBAT_DUP_STD(fd, s) \
-            PBAT_RESET_BUFFERING(fd, s)
-
+            PBAT_RESET_BUFFERING(fd, s)
+
 #define PBAT_XDUP(fd, s) \
             if (((fd) = dup(fileno(s))) == -1) \
                 pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
-- 
2.43.0


From 397c158c2f3d0f88209d0ce858eaea671209c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 054/173] fix: make SET /P read only the line it needs from its
 input

---
 pbat/command/pBat_Set.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index d950251..b048940 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -332,7 +332,13 @@ int pBat_CmdSetP(char* lpLine)
             pBat_LineNoise(lpEsInput, fInput);
         else /* This may look to be a bug, but it's intentional */
 #endif
+        {
+            /* Do not read past the end of the line, what follows is for the
+               next command reading the input, which may be a program */
+            setvbuf(fInput, NULL, _IONBF, 0);
+            clearerr(fInput);
             pBat_EsGet(lpEsInput, fInput);
+        }
 
 		if ((lpEqual=strchr(pBat_EsToChar(lpEsInput), '\n')))
 			*lpEqual='\0';
-- 
2.43.0


From d3317b5b21d71b69034a6ff2e630ff1a4185d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 055/173] fix: do not abort when the script ends while a pipe
 is being finished

---
 pbat/core/pBat_Clone.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 98c23c3..fcb4e85 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -101,8 +101,8 @@ void* pBat_CloneTrampoline(void* data)
 
     pBat_Exit();
 
-    pBat_EndThread((void*)iErrorLevel);
-
+    /* Merely return rather than calling pBat_EndThread(), as it unwinds the
+       stack, which aborts if the main thread happens to be exiting */
     return (void*)iErrorLevel;
 }
 
-- 
2.43.0


From 27550cd7085b2ad7f9b56cef8fff89f90e8fea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 056/173] fix: end the program even though a thread is waiting
 on a stream

---
 pbat/command/pBat_Exit.c |  2 +-
 pbat/core/pBat_ExitInt.c | 17 +++++++++++++++++
 pbat/core/pBat_ExitInt.h |  3 +++
 pbat/pBat.c              |  2 ++
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index 6c1ead6..da807bf 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -103,7 +103,7 @@ int pBat_CmdExit(char* lpLine)
 	if (bIgnoreExit)
         pBat_EndThread((void*)ret);
     else {
-        exit(ret);
+        pBat_ExitProcess(ret);
     }
 
     /* this statement is never reached \o/ */
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index f9090c9..fe5389f 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -24,6 +24,10 @@
 #include "pBat_Core.h"
 #include "../../config.h"
 
+#ifndef WIN32
+#include <unistd.h>
+#endif
+
 
 void pBat_Exit(void)
 {
@@ -43,3 +47,16 @@ void pBat_Exit(void)
     fclose(fOutput);
     fclose(fError);
 }
+
+/* pBat_Exit() has already flushed the streams. Do not use exit(), as it locks
+   every stream and thus never returns if a thread that is still running is
+   waiting for input or output on one of its own streams */
+void pBat_ExitProcess(int status)
+{
+#ifdef WIN32
+    exit(status);
+#else
+    fflush(stdout);
+    _exit(status);
+#endif
+}
diff --git a/pbat/core/pBat_ExitInt.h b/pbat/core/pBat_ExitInt.h
index 5b2fc81..aa3bde1 100644
--- a/pbat/core/pBat_ExitInt.h
+++ b/pbat/core/pBat_ExitInt.h
@@ -23,4 +23,7 @@
 
 void pBat_Exit(void);
 
+/* End the program, once pBat_Exit() has been called */
+void pBat_ExitProcess(int status);
+
 #endif // PBAT_EXIT_H
diff --git a/pbat/pBat.c b/pbat/pBat.c
index fc53329..5bf7bac 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -202,6 +202,8 @@ skip:
 
     pBat_LibClose();
 
+    pBat_ExitProcess(0);
+
     return 0;
 
 }
-- 
2.43.0


From 50e311e62bc0a626d73e0fb693ba81a13d71d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 057/173] fix: go on only once the commands on the left of a
 pipe are done

---
 pbat/core/pBat_ExitInt.c |  4 ++--
 pbat/core/pBat_Run.c     | 34 +++++++++++++++++++++++++++++++---
 pbat/core/pBat_Run.h     |  9 +++++++++
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index fe5389f..3c63994 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -41,11 +41,11 @@ void pBat_Exit(void)
 
 	pBat_EsCacheDrop(&ecEstrCache);
 
-    /* pBat_WaitForAllThreads(); */
-
     fclose(fInput);
     fclose(fOutput);
     fclose(fError);
+
+    pBat_WaitForPipes(NULL);
 }
 
 /* pBat_Exit() has already flushed the streams. Do not use exit(), as it locks
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index da695d8..887fbc5 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -104,13 +104,31 @@ int pBat_RunBatch(INPUT_FILE* pIn)
 
 }
 
+/* commands of pipes that are running on behalf of this thread */
+static __thread struct pipe_thread_t* lpPipeThreads = NULL;
+
+void pBat_WaitForPipes(struct pipe_thread_t* until)
+{
+    struct pipe_thread_t* item;
+    void* ret;
+
+    while ((item = lpPipeThreads) && item != until) {
+
+        lpPipeThreads = item->next;
+        pBat_WaitForThread(&item->th, &ret);
+        pBat_CloseThread(&item->th);
+        free(item);
+
+    }
+}
+
 #define EXECOPERATORS_SKIP 1
 #define EXECOPERATORS_END 2
 int pBat_ExecOperators(PARSED_LINE** lpLine)
 {
     int pipedes[2];
-    THREAD res;
     struct pipe_launch_data_t* infos;
+    struct pipe_thread_t* item;
     PARSED_LINE* line=*lpLine;
     char *pch;
     int status = 0,
@@ -184,8 +202,13 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
             pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()", -1);
 
-        res = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
-        pBat_CloseThread(&res);
+        if ((item = malloc(sizeof(struct pipe_thread_t))) == NULL)
+            pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                    __FILE__ "/pBat_ExecOperators()", -1);
+
+        item->th = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
+        item->next = lpPipeThreads;
+        lpPipeThreads = item;
 
         lastin = pipedes[0];
         if (line->lppsNode)
@@ -326,6 +349,7 @@ int pBat_RunLine(ESTR* lpLine)
 
 void pBat_RunParsedLine(PARSED_LINE* line)
 {
+	struct pipe_thread_t* pipes = lpPipeThreads;
 	int lock, ok;
 	char *pch;
 
@@ -347,6 +371,7 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 
             lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
             pBat_SetStreamStackLockState(lppsStreamStack, lock);
+            pBat_WaitForPipes(pipes);
 
             if (bAbortCommand)
                 break;
@@ -379,6 +404,9 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 		lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, lock);
 
+		/* the line goes on once each command of the pipe is done */
+		pBat_WaitForPipes(pipes);
+
 	} while (line && (line=line->lppsNode)
              && !(ok & EXECOPERATORS_END));
 
diff --git a/pbat/core/pBat_Run.h b/pbat/core/pBat_Run.h
index 351dacf..8f6885d 100644
--- a/pbat/core/pBat_Run.h
+++ b/pbat/core/pBat_Run.h
@@ -47,6 +47,15 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart);
 
 void pBat_LaunchPipe(struct pipe_launch_data_t* infos);
 
+/* The commands of pipes that were launched and must be waited for */
+struct pipe_thread_t {
+    THREAD th;
+    struct pipe_thread_t* next;
+};
+
+/* Wait for the commands of pipes launched since until was the last one */
+void pBat_WaitForPipes(struct pipe_thread_t* until);
+
 /* applies conditional operators */
 int pBat_ExecOperators(PARSED_LINE** lppsStream);
 
-- 
2.43.0


From d8862cf7f4cbb7ef3833817317f169e063636182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 058/173] fix: do not wait for ever for an answer at the end of
 the input

---
 pbat/command/pBat_Ask.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..1474d4b 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -40,30 +40,41 @@
 /* A function to override the hook that libcu8 adds on read()
    that automatically enable autocompletion, which can get
    quite problematic when asking question to the user */
-void xread(int fd, void* p, size_t sz)
+int xread(int fd, void* p, size_t sz)
 {
-    size_t cnt;
+    DWORD cnt = 0;
 
-    do {
+    if (!ReadFile((HANDLE)_get_osfhandle(fd), p, sz, &cnt, NULL))
+        return 0;
 
-        ReadFile(_get_osfhandle(fd), p, sz, &cnt, NULL);
-
-    } while (!cnt);
+    return cnt;
 
 }
 #else
 #define xread(fd, p, n) read(fd, p, n)
 #endif // defined
 
+/* set once the end of the input is reached, so that there is no use asking
+   again */
+static __thread int bEof = FALSE;
+
 void pBat_AskConfirmationRead(char* buffer, size_t size)
 {
 
     int i = 0;
     char c;
 
+    bEof = FALSE;
+
     while (1) {
 
-        xread(fileno(fInput), &c, 1);
+        if (xread(fileno(fInput), &c, 1) <= 0) {
+
+            /* there is no answer at all */
+            bEof = TRUE;
+            break;
+
+        }
 
         if (c == '\r')
             continue;
@@ -90,7 +101,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 	const char *lpChoices=NULL;
 	/* char *lpLf; */
 
-	int iRet;
+	int iRet = 0;
 	char lpInput[30];
 
 	if (iFlags & PBAT_ASK_YNA) {
@@ -185,13 +196,18 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 				iRet=iFlags & (PBAT_ASK_DEFAULT_Y | PBAT_ASK_DEFAULT_N
 				               | PBAT_ASK_DEFAULT_A);
 
+			} else if (bEof && lpFn == pBat_AskConfirmationRead) {
+
+				/* nobody will ever answer, so do not agree */
+				iRet=PBAT_ASK_NO;
+
 			} else if (!(iFlags & PBAT_ASK_INVALID_REASK)) {
 
 				iRet=PBAT_ASK_INVALID;
 
 			} else {
 
-				fputs(lpAskInvalid, stderr);
+				fputs(lpAskInvalid, fError);
 
 			}
 
-- 
2.43.0


From fad48c740951432f1712da5345273c82cae352d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 059/173] fix: make /Y rather than /-Y disable the confirmation
 of COPY and MOVE

---
 pbat/command/pBat_Copy.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..9b21863 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -133,10 +133,13 @@ int pBat_CmdCopy(char* line)
 
         str = pBat_EsToChar(param);
 
-        if (!stricmp("/Y", str)
-            || !stricmp("/-Y", str)) {
+        if (!stricmp("/Y", str)) {
 
-            flags |= (*(str+1)=='-') ? PBAT_COPY_SILENCE : 0;
+            flags |= PBAT_COPY_SILENCE;
+
+        } else if (!stricmp("/-Y", str)) {
+
+            flags &= ~PBAT_COPY_SILENCE;
 
         } else if (!strnicmp("/A", str, 2)) {
 
-- 
2.43.0


From c216999f0eca789668f5b87f80496753e1a8c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 060/173] fix: tell one file from several in COPY and MOVE

---
 pbat/command/pBat_Copy.c | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 9b21863..e3a5f2f 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -265,29 +265,12 @@ int pBat_CmdCopy(char* line)
 
     }
 
-    end = files;
-
-    while (end) {
-        end = end->lpflNext;
-    }
-
     /* Get matching attributes */
     pBat_AttributesSplitFileList(attr | PBAT_ATTR_NO_DIR,
                                     files,
                                     &files,
                                     &next);
 
-    end = files;
-
-    while (end) {
-        end = end->lpflNext;
-    }
-
-    end = files;
-
-    /* actual matching items */
-    while (end && (end = end->lpflNext) && (i++ < 2));
-
     /* Cmd does not accept several file names used in with a
        single *COPY* but for it, several files from a regular expression
        mean concatenation of file, which is somehow strange. */
@@ -296,7 +279,8 @@ int pBat_CmdCopy(char* line)
         flags |= PBAT_COPY_MULTIPLE;
     }
 
-    if (i == 3) {
+    /* there are several matching items */
+    if (files && files->lpflNext) {
 
         if (!(flags & PBAT_COPY_MULTIPLE)
             && !(flags & PBAT_COPY_MOVE))
@@ -306,12 +290,8 @@ int pBat_CmdCopy(char* line)
     }
 
 
-    while (files) {
-
-        status |= pBat_CmdCopyFile(files->lpFileName, file[len-1], &flags);
-
-        files = files->lpflNext;
-    }
+    for (end = files; end; end = end->lpflNext)
+        status |= pBat_CmdCopyFile(end->lpFileName, file[len-1], &flags);
 
 end:
     pBat_FreeFileList(files);
-- 
2.43.0


From fde5950554e203b260ad6c356424e493a2e90443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 061/173] fix: ask only once whether COPY may replace the file
 it concatenates to

---
 pbat/command/pBat_Copy.c | 12 ++++++++++--
 pbat/command/pBat_Copy.h |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index e3a5f2f..d5dbbc1 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -316,7 +316,13 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
     char  name[FILENAME_MAX],
           ext[FILENAME_MAX];
 
-    ESTR* dest_real = pBat_EsInit_Cached();
+    ESTR* dest_real;
+
+    /* the user does not want to replace the file */
+    if (*flags & PBAT_COPY_CAT_STOP)
+        return PBAT_NO_ERROR;
+
+    dest_real = pBat_EsInit_Cached();
 
     if (((*flags & PBAT_COPY_MULTIPLE)
             && !(*flags & PBAT_COPY_CAT))) {
@@ -335,7 +341,7 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
     }
 
     if (pBat_FileExists(pBat_EsToChar(dest_real))
-        && !(*flags & PBAT_COPY_SILENCE)) {
+        && !(*flags & (PBAT_COPY_SILENCE | PBAT_COPY_CAT_2ND))) {
 
         ok = pBat_AskConfirmation(PBAT_ASK_YNA | PBAT_ASK_DEFAULT_N
                                     | PBAT_ASK_INVALID_REASK, NULL,
@@ -354,6 +360,8 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
             case PBAT_ASK_NO:
                 ok=0;
+                if (*flags & PBAT_COPY_CAT)
+                    *flags |= PBAT_COPY_CAT_STOP;
 
         }
     }
diff --git a/pbat/command/pBat_Copy.h b/pbat/command/pBat_Copy.h
index 62de3bf..fa5e50d 100644
--- a/pbat/command/pBat_Copy.h
+++ b/pbat/command/pBat_Copy.h
@@ -34,5 +34,6 @@ int pBat_CatFile(const char* file, const char* dest, int* flags);
 #define PBAT_COPY_RECURSIVE 0x08
 #define PBAT_COPY_CAT       0x10
 #define PBAT_COPY_CAT_2ND   0x20
+#define PBAT_COPY_CAT_STOP  0x40
 
 #endif // PBAT_CMD_ECHO_H
-- 
2.43.0


From 2540e34c6ea5709b713effed0fe7ca0f54c5a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 062/173] fix: do not destroy a file which is copied or moved
 onto itself

---
 pbat/command/pBat_Copy.c | 41 ++++++++++++++++++++++++++++++++++++++++
 pbat/command/pBat_Copy.h |  1 +
 2 files changed, 42 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index d5dbbc1..8caf30d 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -479,8 +479,26 @@ end:
 
 }
 
+/* Check whether both names refer to the same existing file */
+int pBat_IsSameFile(const char* file, const char* dest)
+{
+#ifdef WIN32
+    return !stricmp(file, dest) && pBat_FileExists(dest);
+#else
+    struct stat info, info_dest;
+
+    return !stat(file, &info) && !stat(dest, &info_dest)
+        && info.st_dev == info_dest.st_dev
+        && info.st_ino == info_dest.st_ino;
+#endif
+}
+
 int pBat_MoveFile(const char* file, const char* dest)
 {
+    /* moving a file onto itself must not destroy it */
+    if (pBat_IsSameFile(file, dest))
+        return PBAT_NO_ERROR;
+
     if ((pBat_FileExists(dest)
          && remove(dest))
         || rename(file, dest)) {
@@ -502,6 +520,14 @@ int pBat_CopyFile(const char* file, const char* dest)
     size_t count, writen;
     struct stat info;
 
+    /* opening the destination would destroy the file */
+    if (pBat_IsSameFile(file, dest)) {
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_COPY, file, 0);
+        return PBAT_UNABLE_COPY;
+
+    }
+
 #ifdef WIN32
     old = open(file, O_RDONLY | O_BINARY ,0);
 #else
@@ -593,6 +619,21 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
     size_t count, writen;
     struct stat info;
 
+    if (pBat_IsSameFile(file, dest)) {
+
+        if (*flags & PBAT_COPY_CAT_2ND) {
+
+            pBat_ShowErrorMessage(PBAT_UNABLE_CAT, file, 0);
+            return PBAT_UNABLE_CAT;
+
+        }
+
+        /* the destination already begins with the first file */
+        *flags |= PBAT_COPY_CAT_2ND;
+        return PBAT_NO_ERROR;
+
+    }
+
 #ifdef WIN32
     old = open(file, O_RDONLY | O_BINARY ,0);
 #else
diff --git a/pbat/command/pBat_Copy.h b/pbat/command/pBat_Copy.h
index fa5e50d..1bbc403 100644
--- a/pbat/command/pBat_Copy.h
+++ b/pbat/command/pBat_Copy.h
@@ -25,6 +25,7 @@ int pBat_CmdCopy(char* lpLine);
 int pBat_CmdCopyFile(char* file, const char* dest, int* flags);
 int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags);
 
+int pBat_IsSameFile(const char* file, const char* dest);
 int pBat_CopyFile(const char* file, const char* dest);
 int pBat_MoveFile(const char* file, const char* dest);
 int pBat_CatFile(const char* file, const char* dest, int* flags);
-- 
2.43.0


From 70c9af2d44237efebde3ea263cfc99812d5429ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 063/173] fix: remove the folders moved by MOVE /R, not those
 of the destination

---
 pbat/command/pBat_Copy.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 8caf30d..661c0d1 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -459,9 +459,8 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
         while (item) {
 
-            pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
-
-            status = pBat_Rmdir(real_dest->str);
+            /* folders come after what they contain */
+            status |= pBat_Rmdir(item->lpFileName);
 
             item = item->lpflNext;
 
-- 
2.43.0


From 00cde26c016e1a61329dd3dfd87612c647ee8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 064/173] fix: create the folder the files are copied to by
 COPY /R

---
 pbat/command/pBat_Copy.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 661c0d1..967f4c4 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -231,7 +231,7 @@ int pBat_CmdCopy(char* line)
     if (flags & PBAT_COPY_RECURSIVE) {
 
         for (i=0;i < len - 1 ; i++)
-            status = pBat_CmdCopyRecursive(file[i],
+            status |= pBat_CmdCopyRecursive(file[i],
                         file[len-1], attr, &flags);
 
         goto end;
@@ -397,6 +397,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
              *item;
 
     ESTR* real_dest = pBat_EsInit_Cached();
+    char* sep;
 
     int  status = 0;
     size_t size  = pBat_GetStaticLength(file);
@@ -447,6 +448,17 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
     while (item) {
 
         pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size));
+
+        /* a folder holding nothing but files is not part of dirs */
+        if ((sep = strrchr(real_dest->str, '/'))) {
+
+            *sep = '\0';
+            if (!pBat_DirExists(real_dest->str))
+                status |= pBat_CmdMakeDirs(real_dest->str);
+            *sep = '/';
+
+        }
+
         status |= pBat_CmdCopyFile(item->lpFileName, real_dest->str, flags);
 
         item = item->lpflNext;
-- 
2.43.0


From 828ef8cdb479d526887a4deed28a9e8967c4a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 065/173] fix: tell the actual reason of errors

---
 pbat/errors/pBat_Errors.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 5753112..feb0a84 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <errno.h>
 
 #include <libpBat.h>
@@ -247,11 +248,12 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
 {
 	char* msg = "Undefined";
 
-	pBat_SetConsoleTextColor(fError, PBAT_GET_BACKGROUND(colColor) | PBAT_FOREGROUND_IRED);
-
+	/* do this first, as errno may be altered by any function below */
 	if (iErrorNumber & PBAT_PRINT_C_ERROR)
         msg = strerror(errno);
 
+	pBat_SetConsoleTextColor(fError, PBAT_GET_BACKGROUND(colColor) | PBAT_FOREGROUND_IRED);
+
 	if ((iErrorNumber & ~PBAT_PRINT_C_ERROR) < sizeof(lpErrorMsg)) {
 
         fprintf(fError,
-- 
2.43.0


From e1cd2e82ac26abee5d7dfa30077f784d889f65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 066/173] fix: let COPY concatenate files the first of which is
 read-only

---
 pbat/command/pBat_Copy.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 967f4c4..5b6a871 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -680,7 +680,13 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
     }
 
-    new = open(dest, attr, info.st_mode);
+    /* the other files are still to be written to the destination, even though
+       the first one is read-only */
+#ifdef WIN32
+    new = open(dest, attr, info.st_mode | S_IWRITE);
+#else
+    new = open(dest, attr, info.st_mode | S_IWUSR);
+#endif
 
     if (new == -1) {
 
-- 
2.43.0


From be543f7cfca21940919e50e75819c938970c9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 067/173] fix: do not let REN replace a file by another one

---
 pbat/command/pBat_Ren.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index 2077b36..a7696e8 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -40,6 +40,7 @@
 #include "../errors/pBat_Errors.h"
 
 #include "pBat_Ren.h"
+#include "pBat_Copy.h"
 
 #include "pBat_Ask.h"
 
@@ -108,7 +109,10 @@ int pBat_CmdRen(char* lpLine)
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
 
-			if (rename(lpFileName, lpFileDest)) {
+			/* rename() would silently replace a file by another one */
+			if (((pBat_FileExists(lpFileDest) || pBat_DirExists(lpFileDest))
+			     && !pBat_IsSameFile(lpFileName, lpFileDest))
+			    || rename(lpFileName, lpFileDest)) {
 
 				pBat_ShowErrorMessage(PBAT_UNABLE_RENAME, lpFileName, FALSE);
 				pBat_EsFree_Cached(lpEstr);
-- 
2.43.0


From 4ad406fe3881158d91b75b3a0e94fabffa69f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 068/173] fix: let DEL /P ask before it deletes files

---
 pbat/command/pBat_Del.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 95ab3c4..51e03d3 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -93,6 +93,7 @@ int pBat_CmdDel(char* lpLine)
 
 			/* Ask before suppressing */
 			param|=PBAT_ASK_CONFIRMATION;
+			choice=0;
 
 		} else if (!stricmp(lpToken, "/F")) {
 
-- 
2.43.0


From b51b767c97ed0319b43917b9117b47bda5447444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 069/173] fix: do not let DEL /A delete read-only files without
 /F

---
 pbat/command/pBat_Del.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 51e03d3..9bfeefe 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -235,17 +235,21 @@ int pBat_CmdDel(char* lpLine)
 
     pBat_FreeFileList(next);
 
-    end = list;
-    while (end) {
+    if (!(param & PBAT_DELETE_READONLY)) {
 
-        if (!(param & PBAT_DELETE_READONLY)
-            && (pBat_GetFileMode(end) & PBAT_FILE_READONLY)) {
+        /* Skip read-only files if the user did not specified 'force' */
+        pBat_AttributesSplitFileList(PBAT_ATTR_NO_READONLY,
+                                     list,
+                                     &list,
+                                     &next
+                                     );
 
-            /* Skip read-only files if the user did not specified 'force' */
-            end = end->lpflNext;
-            continue;
+        pBat_FreeFileList(next);
 
-        }
+    }
+
+    end = list;
+    while (end) {
 
         status |= pBat_CmdDelFile(end->lpFileName, pBat_GetFileMode(end),
                                                                 param, &choice);
-- 
2.43.0


From a3ffb7af2b8f92f814d2b2c0cd378265e80ed08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 070/173] fix: let RMDIR report that it could not remove a
 folder

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..25c1205 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -153,7 +153,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         /* This is simple case where we just need to remove the dir */
         choice = PBAT_ASK_ALL;
-        pBat_CmdRmdirFile(name[0], param, &choice);
+        status = pBat_CmdRmdirFile(name[0], param, &choice);
 
     } else if (n == 0) {
 
-- 
2.43.0


From 9a420e0c949ca87c1dc276f0c33d67e35fc3a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 071/173] fix: do not let RMDIR delete files that are not in a
 folder to be removed

---
 pbat/command/pBat_Rmdir.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 25c1205..9d3f289 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -166,6 +166,15 @@ int pBat_CmdRmdir(char* lpLine)
 
         for (i=0; i < n; i++) {
 
+            if (pBat_FileExists(name[i])) {
+
+                /* this would delete a mere file */
+                pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR, name[i], 0);
+                status = PBAT_UNABLE_RMDIR;
+                continue;
+
+            }
+
             if (!(dir = pBat_GetMatchFileList(name[i], mode))) {
 
                 pBat_ShowErrorMessage(PBAT_NO_MATCH,
@@ -198,8 +207,22 @@ int pBat_CmdRmdir(char* lpLine)
                                         &files
                                         );
 
+        /* only the removal of a whole tree needs to be confirmed */
+        if (!(mode & PBAT_SEARCH_RECURSIVE))
+            choice = PBAT_ASK_ALL;
+
         next = files;
 
+        while (next && !(mode & PBAT_SEARCH_RECURSIVE)) {
+
+            /* these are not folders, so they are not to be removed */
+            pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR, next->lpFileName, 0);
+            status = PBAT_UNABLE_RMDIR;
+
+            next = next->lpflNext;
+
+        }
+
         while (next) {
 
 
-- 
2.43.0


From 34dfa70d37c3eee1bd04f6bd1d2d156beb20a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 072/173] fix: do not let RMDIR /S empty the folders that links
 lead to

---
 libpbat/dir/pBat_Dir.c    | 21 +++++++++++++++++++--
 libpbat/libpBat.h         |  2 ++
 pbat/command/pBat_Rmdir.c | 12 +++++++++++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 0e80162..f826294 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -48,6 +48,20 @@ static int __inline__ pBat_IsRegExpTrivial(char* exp)
     }
 }
 
+/* Check whether the search must not go through name */
+static int pBat_IsLinkToSkip(const char* name, int flags)
+{
+#ifdef WIN32
+    return 0;
+#else
+    struct stat info;
+
+    return (flags & PBAT_SEARCH_NO_FOLLOW)
+        && !lstat(name, &info)
+        && S_ISLNK(info.st_mode);
+#endif
+}
+
 /* Return the next level of the string pointed to by up, taking
    account of various parameter.
 
@@ -193,7 +207,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
 
         if ((arg->flags &
                 (PBAT_SEARCH_DIR_MODE | PBAT_SEARCH_RECURSIVE))
-            && pBat_DirExists(up)) {
+            && pBat_DirExists(up)
+            && !pBat_IsLinkToSkip(up, arg->flags)) {
             /* This regular expression is trivial however either dir mode
                or recursive modes have been specified. Thus we need to
                search matching files _inside_ the directory */
@@ -444,6 +459,7 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                     }
 
                     if ((arg->flags & PBAT_SEARCH_RECURSIVE)
+                        && !pBat_IsLinkToSkip(path->str, arg->flags)
                         && (strcmp(ent->d_name, ".") && strcmp(ent->d_name, ".."))) {
 
                         arg->files = ret;
@@ -498,7 +514,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                 pBat_EsCpy(path, ent->d_name);
             }
 
-            if (pBat_DirExists(path->str)) {
+            if (pBat_DirExists(path->str)
+                && !pBat_IsLinkToSkip(path->str, arg->flags)) {
 
                 /* if it does not match *but* we are in recursive mode, browse
                    anyway */
diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index 1967cd7..cca4747 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -384,6 +384,8 @@ LIBPBAT void            pBat_GetMousePos(FILE* f, char on_move, CONSOLECOORD* co
 #define PBAT_SEARCH_NO_PSEUDO_DIR 0x08
 // Search mode equivalent DIR (ie "dir" is equivalent to "dir/*
 #define PBAT_SEARCH_DIR_MODE 0x10
+/* Do not browse the sub-dirs that are only links */
+#define PBAT_SEARCH_NO_FOLLOW 0x20
 
 #ifndef WIN32
 #define PBAT_TEST_SEPARATOR(p) (*(p) == '/')
diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 9d3f289..227fef7 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -106,7 +106,7 @@ int pBat_CmdRmdir(char* lpLine)
 			/* FIXME : Empty the given directory and then try to suppress
 			   the directory */
 
-			mode|=PBAT_SEARCH_RECURSIVE;
+			mode|=PBAT_SEARCH_RECURSIVE | PBAT_SEARCH_NO_FOLLOW;
 
 		} else if (!stricmp(pBat_EsToChar(lpEstr), "/Q")) {
 
@@ -292,6 +292,16 @@ int pBat_CmdRmdirFile(char* dir, int param, int* choice)
 int pBat_Rmdir(const char* dir)
 {
 
+#ifndef WIN32
+    struct stat info;
+
+    /* removing a link to a folder (which may be gone) leaves the folder
+       alone */
+    if (!lstat(dir, &info) && S_ISLNK(info.st_mode)
+        && !pBat_FileExists(dir) && !unlink(dir))
+        return 0;
+#endif
+
     if (rmdir(dir)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR
-- 
2.43.0


From 396878ef8162a59ebd5b4cb04e11e050ede89403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 073/173] fix: do not use the properties of files that could
 not be read

---
 libpbat/dir/pBat_Dir.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index f826294..a73df84 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -115,6 +115,20 @@ char* pBat_GetNextLevel(char* up, char* base, int* jok)
     return NULL;
 }
 
+/* Get the properties of a file, or those of a link if it leads nowhere */
+static void pBat_StatMatch(const char* name, struct stat* info)
+{
+    if (!stat(name, info))
+        return;
+
+#ifndef WIN32
+    if (!lstat(name, info))
+        return;
+#endif
+
+    memset(info, 0, sizeof(struct stat));
+}
+
 static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t* arg)
 {
     FILELIST *file,
@@ -125,7 +139,7 @@ static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t*
         snprintf(block.lpFileName, FILENAME_MAX, "%s", name);
 
         if (!(arg->flags & PBAT_SEARCH_NO_STAT)) {
-            stat(name, &(block.stFileStats));
+            pBat_StatMatch(name, &(block.stFileStats));
 
 #ifdef WIN32
 
@@ -151,7 +165,7 @@ static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t*
     /* fixme : doing something less time-consuming is
        probably possible */
     if (!(arg->flags & PBAT_SEARCH_NO_STAT)) {
-        stat(name, &(file->stFileStats));
+        pBat_StatMatch(name, &(file->stFileStats));
 
 #ifdef WIN32
 
-- 
2.43.0


From 34991843ad5934fe54ea7bf494f67447cef7e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 074/173] fix: end the folder shown by CD with a new line

---
 pbat/command/pBat_Cd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 754cd2b..46c5126 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -313,6 +313,7 @@ def:
 	} else {
 
 		fputs(lpCurrentDir, fOutput);
+		fputs(PBAT_NL, fOutput);
 
 	}
 
-- 
2.43.0


From 9effd30308b683899cc85472d10366dc7a2ece27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 075/173] fix: take paths beginning with several slashes as
 absolute

---
 libpbat/libpBat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index cca4747..47fa1ac 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -389,7 +389,7 @@ LIBPBAT void            pBat_GetMousePos(FILE* f, char on_move, CONSOLECOORD* co
 
 #ifndef WIN32
 #define PBAT_TEST_SEPARATOR(p) (*(p) == '/')
-#define PBAT_TEST_ABSOLUTE_PATH(p) PBAT_TEST_ROOT_PATH(p)
+#define PBAT_TEST_ABSOLUTE_PATH(p) PBAT_TEST_SEPARATOR(p)
 #define PBAT_TEST_UNC_PATH(p)  0
 #define PBAT_TEST_ROOT_PATH(p) (PBAT_TEST_SEPARATOR(p) && !PBAT_TEST_SEPARATOR(p+1))
 #define PBAT_TEST_DRIVE_PATH(p) 0
-- 
2.43.0


From c9d2645c44c69eae0d4af7f2e371238005d9a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 076/173] fix: do not read the name of a file from a buffer
 that has been freed

---
 pbat/core/pBat_FilePath.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 3cd435a..8fb8be3 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -115,6 +115,7 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
 {
     size_t len, size;
     const char* p = TRANS(full->str);
+    int inplace = (p == full->str);
 
     if (PBAT_TEST_ABSOLUTE_PATH(p)) {
 
@@ -157,6 +158,10 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
                                             PBAT_PRINT_C_ERROR,
                                             __FILE__ "/pBat_EsToFullPath()",
                                             -1);
+
+        /* the text may have been moved */
+        if (inplace)
+            p = full->str;
     }
 
     memmove(full->str + size + 1, p, len);
-- 
2.43.0


From 4b94ff99b422275c15dbddd2347d2cf57ddb69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 077/173] fix: compare whole characters when matching wildcards

---
 libpbat/dir/pBat_Dir.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index a73df84..6a3ac44 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -661,6 +661,16 @@ LIBPBAT int pBat_EndWithPattern(const char* restrict match, const char* restrict
 
 }
 
+/* check that the bytes which follow the first one of a character are the
+   same in both characters */
+static int pBat_SameRemainingBytes(const char* c1, const char* c2)
+{
+    size_t size = (char*)pBat_GetNextChar(c1) - c1;
+
+    return ((char*)pBat_GetNextChar(c2) - c2 == size)
+            && !memcmp(c1, c2, size > 1 ? size : 0);
+}
+
 LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict match)
 {
 	char* next;
@@ -719,7 +729,8 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
                 break;
 
             default:
-                if (*regexp  != *match)
+                if (*regexp  != *match
+                    || !pBat_SameRemainingBytes(regexp, match))
                     return 0;
         }
 
@@ -843,7 +854,8 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
                 break;
 
             default:
-                if (toupper(*regexp)  != toupper(*match))
+                if (toupper(*regexp)  != toupper(*match)
+                    || !pBat_SameRemainingBytes(regexp, match))
                     return 0;
         }
 
-- 
2.43.0


From c5ab660ab603e85b886895bd0f504a2f4a4743e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 078/173] fix: show the sizes of files of more than 4 GiB

---
 libpbat/dir/pBat_Dir.c | 12 ++++++------
 libpbat/libpBat.h      |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 6a3ac44..a56329c 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -878,21 +878,21 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
 }
 
-LIBPBAT int pBat_FormatFileSize(char* lpBuf, int iLength, unsigned int iFileSize)
+LIBPBAT int pBat_FormatFileSize(char* lpBuf, int iLength, unsigned long long iFileSize)
 {
 	int i=0, iLastPart=0;
 
-	char* lpUnit[]= {"o", "ko", "mo", "go"};
-	while (iFileSize>=1000) {
+	char* lpUnit[]= {"o", "ko", "mo", "go", "to"};
+	while (iFileSize>=1000 && i<4) {
 		iLastPart=iFileSize % 1000;
 		iFileSize/=1000;
 		i++;
 	}
-	if (iFileSize>=100) return snprintf(lpBuf, iLength, " %d %s", iFileSize, lpUnit[i%4]);
-	if (iFileSize>=10) return snprintf(lpBuf, iLength, "  %d %s", iFileSize, lpUnit[i%4]);
+	if (iFileSize>=100) return snprintf(lpBuf, iLength, " %d %s", (int)iFileSize, lpUnit[i%5]);
+	if (iFileSize>=10) return snprintf(lpBuf, iLength, "  %d %s", (int)iFileSize, lpUnit[i%5]);
 	else {
 		iLastPart=iLastPart/10;
-		return snprintf(lpBuf, iLength, "%d,%.2d %s", iFileSize, iLastPart , lpUnit[i%4]);
+		return snprintf(lpBuf, iLength, "%d,%.2d %s", (int)iFileSize, iLastPart , lpUnit[i%5]);
 	}
 }
 
diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index 47fa1ac..87a055f 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -432,7 +432,7 @@ LIBPBAT int         pBat_RegExpCaseMatch(const char* restrict lpRegExp, const ch
 LIBPBAT LPFILELIST  pBat_GetMatchFileList(char* lpPathMatch, int iFlag);
 LIBPBAT int         pBat_GetMatchFileCallback(char* lpPathMatch, int iFlag, void(*pCallBack)(FILELIST*));
 LIBPBAT int         pBat_FreeFileList(LPFILELIST lpflFileList);
-LIBPBAT int         pBat_FormatFileSize (char* lpBuf, int iLenght, unsigned int iSize);
+LIBPBAT int         pBat_FormatFileSize (char* lpBuf, int iLenght, unsigned long long iSize);
 LIBPBAT int         pBat_GetStaticPart(const char* lpPathMatch, char* lpStaticPart, size_t size);
 LIBPBAT size_t      pBat_GetStaticLength(const char* str);
 
-- 
2.43.0


From a4c04e391ccd5521a18b55edb39e35983c0e780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 079/173] fix: do not crash when FIND can not open a file

---
 pbat/command/pBat_Find.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..3925a70 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -73,7 +73,7 @@ char* pBat_strcasestr(const char* restrict s, const char* restrict find)
 
 int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag, int reverse)
 {
-    FILE* pFile;
+    FILE* pFile = NULL;
     ESTR* lpEsLine=pBat_EsInit_Cached();
 
     int i,
@@ -150,9 +150,12 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
 
 end:
     pBat_EsFree_Cached(lpEsLine);
-    if (name)
-        fclose(pFile); /* do no close stdin, please */
-    else if (isatty(fileno(fInput)))
+    if (name) {
+
+        if (pFile)
+            fclose(pFile); /* do no close stdin, please */
+
+    } else if (isatty(fileno(fInput)))
         clearerr(fInput);
 
     return !i;
-- 
2.43.0


From 493c3db7061a669c3cb0a8cb86bdcbd3c350e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 080/173] fix: ignore folders among the files given to FIND

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index 3925a70..f06c94f 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -288,7 +288,7 @@ int pBat_CmdFind(char* lpLine)
     }
 
     /* split directories from input */
-    pBat_AttributesSplitFileList(PBAT_CMD_ATTR_DIR_N,
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     pBegin,
                                     &pBegin,
                                     &pTmp
-- 
2.43.0


From f9c6eaa6d8e88cb18eaae375b7e7e6f9fd380052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 081/173] fix: show every file given to TYPE

---
 pbat/command/pBat_Type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 87af0ff..22417dc 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -146,6 +146,9 @@ int pBat_CmdType(char* lpLine)
             else
                 pEnd->lpflNext = pTmp; /* catenate the lists */
 
+            while (pEnd->lpflNext != NULL)
+                pEnd = pEnd->lpflNext;
+
         }
 
     }
-- 
2.43.0


From e98ba25fdde2133e9990fd84871e7026fd63ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 082/173] fix: print the names of the files shown by TYPE on
 standard error

---
 pbat/command/pBat_Type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 22417dc..c2eb5cb 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -198,7 +198,7 @@ int pBat_CmdType(char* lpLine)
 
             while (pTmp) {
 
-                fprintf(fOutput, "---------- %s" PBAT_NL , pTmp->lpFileName);
+                fprintf(fError, "---------- %s" PBAT_NL , pTmp->lpFileName);
                 status |= pBat_TypeFile(pTmp->lpFileName);
 
                 pTmp = pTmp->lpflNext;
-- 
2.43.0


From 526426715425fc0201a2e6cec2763d6bbef56821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 083/173] fix: count bytes by default when WC reads standard
 input

---
 pbat/command/pBat_Wc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8c882cd..943ff0c 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -293,6 +293,10 @@ int pBat_CmdWc(char* line)
         }
     }
 
+    /* Count bytes by default */
+    if (mode == 0)
+        mode = PBAT_WC_BYTES;
+
     /* Display no error about file given ... */
     if (match == NULL) {
         /* Something to do with stdin */
@@ -300,10 +304,6 @@ int pBat_CmdWc(char* line)
         pBat_PrintCounts(mode, &cnt, NULL);
     }
 
-    /* Count bytes by default */
-    if (mode == 0)
-        mode = PBAT_WC_BYTES;
-
     /* Perform count on files */
     item = match;
     while (item) {
-- 
2.43.0


From 306b31b3a8e1583f49d66aa47c7ae064c9c536e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 084/173] fix: count the last word of files given to WC

---
 pbat/command/pBat_Wc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 943ff0c..6ec5a38 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -145,6 +145,10 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     }
 
+    /* the last word may not be followed by any delimiter */
+    if (inword)
+        cnt->words ++;
+
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
     if (fd != fileno(fInput)) {
-- 
2.43.0


From aab206ebbd28dd96049a94203d55ec36477899bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 085/173] fix: do not expand the lines read by XARGS

---
 pbat/command/pBat_Xargs.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Xargs.c b/pbat/command/pBat_Xargs.c
index b14622d..0c11a60 100644
--- a/pbat/command/pBat_Xargs.c
+++ b/pbat/command/pBat_Xargs.c
@@ -44,6 +44,31 @@
 
 #include "../errors/pBat_Errors.h"
 
+/* Add a line of input to the command line, escaping every character that
+   would otherwise be expanded when the command gets its parameters */
+static void pBat_XargsCat(ESTR* cmdline, const char* line)
+{
+    size_t len;
+    char buf[3] = {'^', '\0', '\0'};
+
+    while (*line) {
+
+        if ((len = strcspn(line, "^!%"))) {
+
+            pBat_EsCatN(cmdline, line, len);
+            line += len;
+
+        } else {
+
+            buf[1] = *line;
+            pBat_EsCat(cmdline, buf);
+            line ++;
+
+        }
+
+    }
+}
+
 /* XARGS [cmd ...]
 
     Run the command CMD taking arguments on the command line
@@ -74,7 +99,7 @@ int pBat_CmdXargs(char* line)
 
     }
 
-    pBat_GetEndOfLine(line, cmdline); /* get the cmd */
+    pBat_EsCpy(cmdline, line); /* get the cmd */
 
     /* get input from stdin */
     while (!pBat_EsGet(param, fInput)) {
@@ -85,12 +110,12 @@ int pBat_CmdXargs(char* line)
             && *(pBat_SkipAllBlanks(param->str)) != '"') {
 
             pBat_EsCat(cmdline, " \"");
-            pBat_EsCatE(cmdline, param);
+            pBat_XargsCat(cmdline, param->str);
             pBat_EsCat(cmdline, "\"");
 
         } else {
             pBat_EsCat(cmdline, " ");
-            pBat_EsCatE(cmdline, param);
+            pBat_XargsCat(cmdline, param->str);
         }
 
     }
-- 
2.43.0


From 7ee49ce04752fd76b968e5756c3fe18a124e3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 086/173] fix: do not crash when MORE can not open a file

---
 pbat/command/pBat_More.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 8dabdb0..0e51df7 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -242,7 +242,7 @@ end:
 int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
 {
 
-    FILE *file;
+    FILE *file = NULL;
     /* char buf[80]; */
     int status=0,
         ok=1,
@@ -303,7 +303,9 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
      }
 
 end:
-     if (file != fInput)
+     if (file == NULL)
+        ; /* the file could not be opened */
+     else if (file != fInput)
         fclose(file);
      else if (isatty(fileno(fInput)))
         clearerr(fInput);
-- 
2.43.0


From e5cd53567cace9721768fb246cab5a0d8347502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 087/173] fix: reject tabulations of no width in MORE

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 0e51df7..a10cdf0 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -104,7 +104,7 @@ int pBat_CmdMore(char* line)
 
             tabsize = strtol(ptr, &ret, 0);
 
-            if (*ret) {
+            if (*ret || tabsize <= 0) {
 
                 pBat_ShowErrorMessage(PBAT_INVALID_NUMBER,
                                         ptr,
-- 
2.43.0


From c8bb1c8bf726d53bebb6609c96a7d09557565c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 088/173] fix: print a whole first screen in MORE

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index a10cdf0..9ccbd3e 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -246,7 +246,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
     /* char buf[80]; */
     int status=0,
         ok=1,
-        toprint;
+        toprint=23;
 
     if (filename) {
 
-- 
2.43.0


From 8792581e4561a2bfeb45202806f44cf2233c19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 089/173] fix: forget about the blank lines of the preceding
 file in MORE

---
 pbat/command/pBat_More.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 9ccbd3e..6e3beb5 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -41,7 +41,7 @@
 
 #include "../../config.h"
 
-static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file);
+static int pBat_MoreWriteLine(int* begin, int* blank, int flags, int tabsize, FILE* file);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
 int pBat_CmdMore(char* line)
@@ -246,6 +246,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
     /* char buf[80]; */
     int status=0,
         ok=1,
+        blank=0, /* was the preceding line blank ? */
         toprint=23;
 
     if (filename) {
@@ -271,12 +272,12 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
      if (!(flags & PBAT_MORE_INTERACTIVE)) {
 
         /* if we do not output in a tty, do not perform user interaction */
-        while (pBat_MoreWriteLine(&begin, flags, tabsize, file));
+        while (pBat_MoreWriteLine(&begin, &blank, flags, tabsize, file));
 
      } else {
 
         /* skip lines at beginning */
-        while (begin && pBat_MoreWriteLine(&begin, flags, tabsize, file))
+        while (begin && pBat_MoreWriteLine(&begin, &blank, flags, tabsize, file))
             toprint = 23;
 
         /* run interractive */
@@ -292,7 +293,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
             if (isatty(fileno(fOutput)))
 
             while (toprint -- && ok)
-                ok = pBat_MoreWriteLine(&begin, flags, tabsize, file);
+                ok = pBat_MoreWriteLine(&begin, &blank, flags, tabsize, file);
 
 
             if (pBat_MorePrompt(in, &toprint, &begin, &ok))
@@ -364,14 +365,13 @@ int more_fputc_u8_wrapper (int c, FILE* p)
 }
 #endif
 
-static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
+static int pBat_MoreWriteLine(int* begin, int* blank, int flags, int tabsize, FILE* file)
 {
     int c,
         col=0,
         ncol;
 
-    static __thread int blank=0,
-                cr=0; /* a carriot return was included at the end of
+    static __thread int cr=0; /* a carriot return was included at the end of
                          the preceding line */
 
     int(*more_fputc)(int,FILE*)=fputc;
@@ -395,7 +395,7 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
         if (c=='\t') {
 
-            blank = 0;
+            *blank = 0;
 
             ncol = tabsize - (col % tabsize);
 
@@ -451,17 +451,17 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
                 if (col == 0) {
 
-                    if (blank && (flags & PBAT_MORE_SQUEEZE))
+                    if (*blank && (flags & PBAT_MORE_SQUEEZE))
                         continue;
 
                     if (cr)
                         continue;
 
-                    blank = 1;
+                    *blank = 1;
 
                 } else {
 
-                    blank = 0;
+                    *blank = 0;
 
                 }
 
@@ -471,7 +471,7 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
             }
 
-            blank = 0;
+            *blank = 0;
 
             more_fputc(c, fOutput);
             col ++;
-- 
2.43.0


From 133e6b54e78e9288d347cfa99dad1945fabf369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 090/173] fix: do not split characters nor remove blank lines
 in MORE when folding lines

---
 pbat/command/pBat_More.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 6e3beb5..d916874 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -371,9 +371,6 @@ static int pBat_MoreWriteLine(int* begin, int* blank, int flags, int tabsize, FI
         col=0,
         ncol;
 
-    static __thread int cr=0; /* a carriot return was included at the end of
-                         the preceding line */
-
     int(*more_fputc)(int,FILE*)=fputc;
 
 #ifdef WIN32
@@ -454,9 +451,6 @@ static int pBat_MoreWriteLine(int* begin, int* blank, int flags, int tabsize, FI
                     if (*blank && (flags & PBAT_MORE_SQUEEZE))
                         continue;
 
-                    if (cr)
-                        continue;
-
                     *blank = 1;
 
                 } else {
@@ -478,19 +472,24 @@ static int pBat_MoreWriteLine(int* begin, int* blank, int flags, int tabsize, FI
 
         }
 
-        cr = 0;
-
     }
 
     if (c == EOF)
         return 0;
 
-    if (col == 79 && c != '\n') {
+    /* the line is full: finish the current utf-8 character and swallow the
+       end of the line if it is right there, so as not to print it twice */
+    while (((c = fgetc(file)) != EOF)
+            && (flags & PBAT_MORE_USEU8) && (c & 0x80) && !(c & 0x40))
+        more_fputc(c, fOutput);
 
-        more_fputc('\n', fOutput);
-        cr = 1;
+    if (c == EOF)
+        return 0;
 
-    }
+    if (c != '\n')
+        ungetc(c, file);
+
+    more_fputc('\n', fOutput);
 
     return 1;
 
-- 
2.43.0


From 018b4c273a69757db9e1d03b1fb6f42930a24370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 091/173] fix: do not print a character after a truncated
 escape code in MORE

---
 pbat/command/pBat_More.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index d916874..54ed179 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -427,7 +427,8 @@ static int pBat_MoreWriteLine(int* begin, int* blank, int flags, int tabsize, FI
                     while (((c = fgetc(file)) != EOF) && !(c <= '~' && c >= '@'))
                         more_fputc(c, fOutput);
 
-                    more_fputc(c, fOutput);
+                    if (c != EOF)
+                        more_fputc(c, fOutput);
 
                     break;
 
-- 
2.43.0


From d824233026a8bf444ee40943995059c67ec6b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 092/173] fix: DEF expands each symbol of a procedure once

---
 pbat/core/pBat_ExpandDef.c | 53 ++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/pbat/core/pBat_ExpandDef.c b/pbat/core/pBat_ExpandDef.c
index 77a46b8..dc00d91 100644
--- a/pbat/core/pBat_ExpandDef.c
+++ b/pbat/core/pBat_ExpandDef.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <libpBat.h>
 
 #include "pBat_Core.h"
@@ -27,29 +28,53 @@
 void pBat_ExpandDef(ESTR* lpRet, char* lpCh, char* lpExp)
 {
     int i;
-    char var[]="$1";
-    ESTR *restrict ret=pBat_EsInit_Cached(),
-        *restrict param=pBat_EsInit_Cached();
-
-    pBat_EsCpy(ret, lpExp);
+    char *symbol;
+    ESTR *ret = pBat_EsInit_Cached(),
+         *all = pBat_EsInit_Cached(),
+         *params[9];
 
+    /* get every parameter before starting the substitution, so that what is
+       substituted is never searched for symbols itself */
     lpCh = pBat_SkipBlanks(lpCh);
-    pBat_EsReplace(ret, "$*", lpCh);
+    pBat_EsCpy(all, lpCh);
+
+    for (i = 0; i < 9; i++) {
+
+        params[i] = pBat_EsInit_Cached();
+
+        if (lpCh == NULL
+            || (lpCh = pBat_GetNextParameterEs(lpCh, params[i])) == NULL)
+            pBat_EsCpy(params[i], "");
+
+    }
 
-    for (i = 1; i <= 10; i++) {
+    pBat_EsCpy(ret, "");
 
-        var[1] = '0' + i;
+    while ((symbol = strchr(lpExp, '$'))) {
+
+        if (symbol[1] == '*' || (symbol[1] >= '1' && symbol[1] <= '9')) {
+
+            pBat_EsCatN(ret, lpExp, symbol - lpExp);
+            pBat_EsCatE(ret, symbol[1] == '*' ? all
+                                              : params[symbol[1] - '1']);
+            lpExp = symbol + 2;
+
+        } else {
+
+            pBat_EsCatN(ret, lpExp, symbol + 1 - lpExp);
+            lpExp = symbol + 1;
+
+        }
 
-        if (lpCh
-            && (lpCh = pBat_GetNextParameterEs(lpCh, param)))
-            pBat_EsReplace(ret, var, param->str);
-        else
-            pBat_EsReplace(ret, var, "");
     }
 
+    pBat_EsCat(ret, lpExp);
     pBat_EsCpyE(lpRet, ret);
 
+    for (i = 0; i < 9; i++)
+        pBat_EsFree_Cached(params[i]);
+
+    pBat_EsFree_Cached(all);
     pBat_EsFree_Cached(ret);
-    pBat_EsFree_Cached(param);
 
 }
-- 
2.43.0


From aaef39af1244812e6311f10df9d72a52562bab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 093/173] fix: DEF /F replaces the named command and not one
 its name starts with

---
 libpbat/cmdlist/pBat_CmdList.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 7963c12..712a956 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -280,9 +280,7 @@ LIBPBAT int				pBat_ReplaceCommand(LPCOMMANDINFO lpciCommand, LPCOMMANDLIST lpcl
 
     while (lpclCommandList) {
 
-        iRet=strnicmp(lpCommandLine,
-                      lpclCommandList->ptrCommandName,
-                      lpclCommandList->iLenght);
+        iRet=stricmp(lpCommandLine, lpclCommandList->ptrCommandName);
 
         if (iRet>0) {
 
-- 
2.43.0


From 48bd0428cea651c94b31980f46c1c5d64ccca805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 094/173] fix: a procedure name does not hide an internal
 command followed by a delimiter

---
 libpbat/cmdlist/pBat_CmdList.c | 81 ++++++++++++----------------------
 1 file changed, 29 insertions(+), 52 deletions(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 712a956..eacdcd5 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -199,72 +199,49 @@ LIBPBAT LPCOMMANDLIST pBat_MapCommandInfo(LPCOMMANDINFO lpciCommandInfo, int i)
     return lpclList;
 }
 
-LIBPBAT COMMANDFLAG   pBat_GetCommandProc(char* lpCommandLine,
-                LPCOMMANDLIST lpclCommandList, void** lpcpCommandProcedure)
+static LPCOMMANDLIST _pBat_FindCommand(const char* lpName, size_t iLength,
+                                                    LPCOMMANDLIST lpclList)
 {
     int iRet;
 
+    while (lpclList) {
 
-    while (lpclCommandList) {
-
-        iRet=strnicmp(lpCommandLine,
-                      lpclCommandList->ptrCommandName,
-                      lpclCommandList->iLenght);
-
-        loop_again:
-
-        if (iRet>0) {
-
-           lpclCommandList=lpclCommandList->lpclRightRoot;
-
-        } else if (iRet<0) {
-
-            lpclCommandList=lpclCommandList->lpclLeftRoot;
-
-        } else {
-
-            if ((lpclCommandList->cfFlag & ~PBAT_COMMAND_FLAGS)) {
-
-                /* if there is a limit, just check if next
-                   character is a delimiter.
-
-                   Note that if we have been here, it's because
-                   the string is at least as large as the
-                   comparing string */
+        iRet=strnicmp(lpName, lpclList->ptrCommandName, iLength);
 
-                switch(lpCommandLine
-                       [lpclCommandList->cfFlag & ~PBAT_COMMAND_FLAGS]) {
+        if (iRet == 0 && (size_t)lpclList->iLenght == iLength)
+            return lpclList;
 
-                    case ' ':
-                    case ',':
-                    case ';':
-                    case '\n':
-                    case '\t':
-                    case '\0':
-                    case '/':
-                        *lpcpCommandProcedure=lpclCommandList->lpCommandProc;
-                        return lpclCommandList->cfFlag;
+        lpclList = (iRet > 0) ? lpclList->lpclRightRoot
+                              : lpclList->lpclLeftRoot;
 
-                }
-
-                /* it did not match, just try again */
+    }
 
-                iRet=stricmp(lpCommandLine, lpclCommandList->ptrCommandName);
+    return NULL;
+}
 
-                goto loop_again;
+LIBPBAT COMMANDFLAG   pBat_GetCommandProc(char* lpCommandLine,
+                LPCOMMANDLIST lpclCommandList, void** lpcpCommandProcedure)
+{
+    size_t iLength;
+    LPCOMMANDLIST lpclFound;
 
-            } else {
+    /* Commands are sorted by their whole name, hence look for every beginning
+       of the line that may be a command name, starting with the longest. */
 
-                /* if there is no delimiter to check, return
-                   that, because it's obviously the right
-                   command (match the shortest match found) */
+    for (iLength = strlen(lpCommandLine); iLength > 0; iLength--) {
 
-                *lpcpCommandProcedure=lpclCommandList->lpCommandProc;
-                return lpclCommandList->cfFlag;
+        if (!(lpclFound = _pBat_FindCommand(lpCommandLine, iLength,
+                                                            lpclCommandList)))
+            continue;
 
-            }
+        if ((lpclFound->cfFlag & ~PBAT_COMMAND_FLAGS)
+            && lpCommandLine[iLength] != '\0'
+            && !strchr(" ,;\n\t/", lpCommandLine[iLength]))
+            continue; /* there is a limit, and next character is not a
+                         delimiter */
 
-        }
+        *lpcpCommandProcedure=lpclFound->lpCommandProc;
+        return lpclFound->cfFlag;
 
     }
 
-- 
2.43.0


From b7ce70ff052f3fecb1bc61afbcf9b90fabd45557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 095/173] fix: variables local to a procedure are found
 whatever the case of the other names

---
 pbat/core/pBat_Env.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 4693abf..85b527f 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -25,6 +25,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 
 #include "../errors/pBat_Errors.h"
 #include "pBat_Core.h"
@@ -46,10 +47,13 @@ int pBat_EnvCompLocal(const void* p1, const void* p2)
 {
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
+    /* NULL names are sorted at the end of the buffer */
     if ((pVar2->name == NULL))
-        return - PBAT_ENV_LOCAL_PREFIX;
+        return -1;
 
-    return *(pVar2->name) - PBAT_ENV_LOCAL_PREFIX;
+    /* must agree with the order given by pBat_EnvCompName() */
+    return tolower((unsigned char)*(pVar1->name))
+            - tolower((unsigned char)*(pVar2->name));
 }
 
 #define PBAT_ENV_BLOCK_MASK 0x7F
-- 
2.43.0


From e2ffbffc35525a53b2605679c402222437115b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 096/173] fix: a new variable does not take the SET /X mark of
 a removed one

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 85b527f..e03c877 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -320,7 +320,7 @@ error:
 
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
-        (*pRes)->inherit |= inherit;
+        (*pRes)->inherit = inherit;
 
     } else {
 
-- 
2.43.0


From 64b5001a11c648c2c6e1040f200a93dce1290414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 097/173] fix: a procedure can remove an inherited local
 variable

---
 pbat/command/pBat_Set.c |  1 +
 pbat/core/pBat_Env.c    | 34 +++++++++++++++++++++-------------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index b048940..a38d9ea 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -205,6 +205,7 @@ int pBat_CmdSet(char *lpLine)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
 			if ((lpeEnv->envbuf[i]->name != NULL)
+                && (lpeEnv->envbuf[i]->content != NULL)
                 && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine))) {
 
 				found = TRUE;
diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index e03c877..f34f155 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -122,14 +122,13 @@ error:
     }
 
 
-    if (name == NULL
-        || content == NULL) {
+    pRet->content = NULL;
+    pRet->name = NULL;
 
-        pRet->content = NULL;
-        pRet->name = NULL;
+    if (name != NULL && !(pRet->name = strdup(name)))
+        goto error;
 
-    } else if (!(pRet->name = strdup(name))
-            || !(pRet->content = strdup(content)))
+    if (content != NULL && !(pRet->content = strdup(content)))
         goto error;
 
     pRet->previous = NULL;
@@ -368,9 +367,14 @@ void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
 
     pRes = bsearch(&pKey, pEnv->envbuf, pEnv->index, sizeof(ENVVAR*), pBat_EnvCompName);
 
-    /* Do not let local variables used by previous contexts be freed */
-    if (pRes &&
-        ((*pRes)->previous) == NULL) {
+    if (pRes && (*pRes)->previous) {
+
+        /* Do not let local variables used by previous contexts be freed,
+           only forget the content in the current context */
+        free((*pRes)->content);
+        (*pRes)->content = NULL;
+
+    } else if (pRes) {
 
         free((*pRes)->name);
         free((*pRes)->content);
@@ -416,7 +420,8 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
 
     for (i=0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL
+            || pEnv->envbuf[i]->content == NULL)
             continue;
 
         #if !defined(WIN32)
@@ -438,7 +443,8 @@ void pBat_UnApplyEnv(ENVBUF* pEnv)
 
     for (i=0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL
+            || pEnv->envbuf[i]->content == NULL)
             continue;
 
         #if !defined(WIN32)
@@ -462,7 +468,8 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL
+            || pEnv->envbuf[i]->content == NULL)
             continue;
 
         pEnv->envbuf[i]->size = strlen(pEnv->envbuf[i]->content)
@@ -482,7 +489,8 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->name == NULL
+            || pEnv->envbuf[i]->content == NULL)
             continue;
 
         strcpy(p, pEnv->envbuf[i]->name);
-- 
2.43.0


From ae856318e2fea86a04269547daccf65de9027cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 098/173] fix: a script modified by its last command does not
 start over

---
 pbat/core/pBat_ReadScript.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index 5f5bb56..e278442 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -312,9 +312,9 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
     while (cmd && (i --))
         cmd = cmd->next;
 
-    /* if there is not enough lines in the new script,
-       restart from the beginning */
-    script->curr = cmd ? (cmd) : (script->cmds);
+    /* if there is not enough lines in the new script, there is nothing left
+       to run */
+    script->curr = cmd;
 
     return 0;
 }
-- 
2.43.0


From a9382b8cb76bd1b223d2b2331aec34d78e6c8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 099/173] fix: a script modified without changing its size is
 read again

---
 pbat/core/pBat_ReadScript.c | 22 +++++++++++++++++-----
 pbat/core/pBat_ReadScript.h |  6 ++++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index e278442..b6e0afa 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -89,7 +89,8 @@ void pBat_DumpBatchScript(struct batch_script_t* script)
 }
 
 #ifdef WIN32
-__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restrict err)
+__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script,
+                    unsigned long long* restrict stamp, int* restrict err)
 {
     WIN32_FILE_ATTRIBUTE_DATA attr;
 
@@ -119,16 +120,25 @@ __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restric
     }
 #endif /* PBAT_USE_LIBCU8 */
 
+    *stamp = (((unsigned long long)attr.ftLastWriteTime.dwHighDateTime) << 32)
+                | attr.ftLastWriteTime.dwLowDateTime;
+
     return attr.nFileSizeLow;
 }
 #else
-__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restrict err)
+__inline__ size_t pBat_GetScriptSize(struct batch_script_t* script,
+                    unsigned long long* restrict stamp, int* restrict err)
 {
     struct stat st;
 
-    if (stat(script->name, &st) == 0)
+    if (stat(script->name, &st) == 0) {
+
+        *stamp = (unsigned long long)st.st_mtim.tv_sec * 1000000000ULL
+                    + st.st_mtim.tv_nsec;
         return st.st_size;
 
+    }
+
     *err = 1;
     return 0;
 }
@@ -173,7 +183,7 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
     if ((file = fopen(script->name, "r")) == NULL)
         goto error;
 
-    script->size = pBat_GetScriptSize(script, &checkres);
+    script->size = pBat_GetScriptSize(script, &(script->stamp), &checkres);
 
     if (checkres)
         goto error;
@@ -323,8 +333,10 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
 int pBat_CheckBatchScriptChanges(struct batch_script_t* script)
 {
     int ret, err = 0;
+    unsigned long long stamp = 0;
 
-    ret = (script->size != pBat_GetScriptSize(script, &err));
+    ret = (script->size != pBat_GetScriptSize(script, &stamp, &err));
+    ret |= (script->stamp != stamp);
 
     /* if error, say it doesn't changed */
     if (err)
diff --git a/pbat/core/pBat_ReadScript.h b/pbat/core/pBat_ReadScript.h
index d090f98..151415f 100644
--- a/pbat/core/pBat_ReadScript.h
+++ b/pbat/core/pBat_ReadScript.h
@@ -61,7 +61,8 @@ struct batch_script_t {
     wchar_t *wname; /* wide character version of wname to speed script up  */
 #endif
     int cpy; /* if this struct is a copy (i.e. not the original one) */
-    size_t size; /* last modified time */
+    size_t size; /* size of the script when it was loaded */
+    unsigned long long stamp; /* last modified time */
     struct cmdlines_t* cmds; /* start of the script */
     struct cmdlines_t* curr; /* current line */
     struct labels_t* lbls; /* start of label list */
@@ -92,7 +93,8 @@ void pBat_FreeLabels(struct labels_t* labels);
 /* Free cmdlines */
 void pBat_FreeCmdlines(struct cmdlines_t* cmdlines);
 
-size_t pBat_GetScriptSize(struct batch_script_t* script, int* restrict err);
+size_t pBat_GetScriptSize(struct batch_script_t* script,
+                    unsigned long long* restrict stamp, int* restrict err);
 
 char* xstrdup(const char* str);
 
-- 
2.43.0


From a813c1c5a600f9696d7b582d864c0cd46d4ff3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 100/173] fix: a program killed by a signal was reported as
 successful

---
 pbat/core/pBat_Exec.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 87edbf9..e691a9c 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -36,6 +36,18 @@
 #include "pBat_Core.h"
 #include "../init/pBat_Init.h"
 
+#if !defined(WIN32)
+/* the errorlevel of a child process, from the status of waitpid(). A process
+   killed by a signal did not succeed. */
+static int pBat_ExitStatus(int status)
+{
+    if (WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+
+    return WEXITSTATUS(status);
+}
+#endif
+
 
 int pBat_ExecuteFile(EXECINFO* info)
 {
@@ -373,7 +385,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	}
 
-	return WEXITSTATUS(iResult);
+	return pBat_ExitStatus(iResult);
 
 }
 
-- 
2.43.0


From 5986de6e8f34a5b984c9baadc731728d7c79afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 101/173] fix: the exit status of the start script was not
 decoded

---
 pbat/core/pBat_Exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index e691a9c..53d0e68 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -632,7 +632,7 @@ int pBat_StartFile(EXECINFO* info, int* error)
 
     }
 
-    return status;
+    return pBat_ExitStatus(status);
 
 }
 
-- 
2.43.0


From 6f7f8aae1499ade666a6a5022c0a9f67f93fc157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 102/173] fix: relative folders of PATH were not looked up from
 the current directory

---
 pbat/core/pBat_FilePath.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 8fb8be3..c3ae15d 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -255,7 +255,9 @@ int pBat_GetFilePath(char* lpFullPath, const char* lpPartial, size_t iBufSize)
 
 		} else {
 
-			pBat_MakePath(lpEsTmp, 2, pBat_EsToChar(lpEsPart), lpPartial);
+			/* relative entries start from the current directory */
+			pBat_MakePath(lpEsFinalPath, 2, pBat_EsToChar(lpEsPart), lpPartial);
+			pBat_MakeFullPathEs(lpEsTmp, pBat_EsToChar(lpEsFinalPath));
 
 		}
 
-- 
2.43.0


From 8129685e3c96daed9b5e43c931f1fc3599be7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 103/173] fix: programs were started with broken pipes ignored

---
 pbat/core/pBat_Exec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 53d0e68..ee3e060 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -24,6 +24,7 @@
 #include <errno.h>
 
 #ifndef WIN32
+#include <signal.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
@@ -329,6 +330,11 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
         close(fds[0]); /* close read end */
 
+#if defined(SIGPIPE)
+        /* only pBat itself ignores broken pipes */
+        signal(SIGPIPE, SIG_DFL);
+#endif
+
 		if ( execv(info->file, info->args) == -1) {
 
 			/* if we got here, we can't set ERRORLEVEL
-- 
2.43.0


From 0f68e0ce9c365bd447a4876fe115d164afab5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 104/173] fix: an operator following an escaped > was taken for
 a redirection

---
 pbat/core/pBat_Parse.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Parse.c b/pbat/core/pBat_Parse.c
index 6268893..92eadfa 100644
--- a/pbat/core/pBat_Parse.c
+++ b/pbat/core/pBat_Parse.c
@@ -291,6 +291,17 @@ error:
 
 }
 
+/* tells if the character lpCh points to, inside lpBegin, is escaped */
+static int pBat_IsEscaped(const char* lpBegin, const char* lpCh)
+{
+	int iEscaped=FALSE;
+
+	while (lpCh > lpBegin && *(--lpCh) == '^')
+		iEscaped=!iEscaped;
+
+	return iEscaped;
+}
+
 PARSED_LINE*       pBat_ParseOperators(ESTR* lpesLine)
 {
 	PARSED_LINE *lppsStream=NULL,
@@ -342,7 +353,8 @@ PARSED_LINE*       pBat_ParseOperators(ESTR* lpesLine)
 
 		if (*lpNextToken == '&'
             && (lpNextToken >= lpesLine->str +1)
-            && (*(lpNextToken - 1) == '>')) {
+            && (*(lpNextToken - 1) == '>')
+            && !pBat_IsEscaped(lpesLine->str, lpNextToken - 1)) {
 
             lpSearchBegin = lpNextToken + 1;
             continue;
-- 
2.43.0


From 23aec92ac38c514716cda0df816a05a00170d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 105/173] fix: EXIT /B outside of a subroutine did not set the
 exit status

---
 pbat/pBat.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbat/pBat.c b/pbat/pBat.c
index 5bf7bac..c32993e 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -74,7 +74,8 @@ int main(int argc, char *argv[])
 
 
     int bQuiet=FALSE,
-        bExitAfterCmd=TRUE;
+        bExitAfterCmd=TRUE,
+        iStatus=0;
 
     ESTR* lpesCmd;
 
@@ -198,11 +199,15 @@ int main(int argc, char *argv[])
 
 skip:
 
+    /* EXIT /B outside of any subroutine is an EXIT as well */
+    if (bAbortCommand == PBAT_ABORT_EXECUTION_LEVEL)
+        iStatus = iErrorLevel;
+
     pBat_Exit();
 
     pBat_LibClose();
 
-    pBat_ExitProcess(0);
+    pBat_ExitProcess(iStatus);
 
     return 0;
 
-- 
2.43.0


From d4861c97efdda4528df364cd7ff3f12e4e5d3be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 106/173] fix: START /D ran the command in the current folder
 when the folder did not exist

---
 pbat/command/pBat_Start.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index cb0e40f..9bbc5e1 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -191,6 +191,14 @@ int pBat_CmdStart(char* line)
             dir = param;
             param = pBat_EsInit_Cached();
 
+            if (!pBat_DirExists(info.dir)) {
+
+                pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR, info.dir, 0);
+                status = PBAT_DIRECTORY_ERROR;
+
+                goto error;
+            }
+
         } else if (info.file == NULL) {
 
             /* WOW... this might as well be the title or the real file
-- 
2.43.0


From 16ec221ceeecfe76012120063a323773f9becf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 107/173] fix: START ignored the folder given to internal
 commands

---
 pbat/command/pBat_Start.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 9bbc5e1..7a01a1e 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -34,6 +34,7 @@
 #include <libpBat.h>
 
 #include "pBat_Start.h"
+#include "pBat_Cd.h"
 #include "../core/pBat_Core.h"
 
 #include "../errors/pBat_Errors.h"
@@ -68,10 +69,17 @@
 
  */
 
-void pBat_StartCommandExec(struct pipe_launch_data_t* data)
+struct start_launch_data_t {
+    ESTR* str;
+    ESTR* dir;
+};
+
+void pBat_StartCommandExec(struct start_launch_data_t* data)
 {
     bIgnoreExit = TRUE;
 
+    pBat_SetCurrentDir(data->dir->str);
+    pBat_EsFree(data->dir);
 
     pBat_RunLine(data->str);
 
@@ -82,19 +90,21 @@ void pBat_StartCommandExec(struct pipe_launch_data_t* data)
 }
 
 
-int pBat_StartCommandBackground(const char* cmdline, int wait)
+int pBat_StartCommandBackground(const char* cmdline, const char* dir, int wait)
 {
-    struct pipe_launch_data_t* data;
+    struct start_launch_data_t* data;
     THREAD handle;
     void* ret;
 
-    if ((data = malloc(sizeof(struct pipe_launch_data_t))) == NULL)
+    if ((data = malloc(sizeof(struct start_launch_data_t))) == NULL)
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION,
                                 __FILE__ "/pBat_StartCommandBackground()",
                                 -1);
 
     data->str = pBat_EsInit();
     pBat_EsCat(data->str, cmdline);
+    data->dir = pBat_EsInit();
+    pBat_EsCat(data->dir, dir);
 
     handle = pBat_CloneInstance((void(*)(void*))pBat_StartCommandExec, data);
 
@@ -367,7 +377,7 @@ int pBat_CmdStart(char* line)
         info.dir = lpCurrentDir;
 
     if (command)
-        status = pBat_StartCommandBackground(info.cmdline,
+        status = pBat_StartCommandBackground(info.cmdline, info.dir,
                                              info.flags & PBAT_EXEC_WAIT);
     else
         status = pBat_ExecuteFile(&info);
-- 
2.43.0


From b53f674ef0688a9b80039bcb69869c8631a89610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 108/173] fix: START took the options /MIN and /MAX for the
 name of the command

---
 pbat/command/pBat_Start.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 7a01a1e..3550acd 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -166,6 +166,8 @@ int pBat_CmdStart(char* line)
                     || !stricmp(param->str, "/LOW")             /* |        */
                     || !stricmp(param->str, "/REALTIME")        /* | Ignore */
                     || !stricmp(param->str, "/ABOVENORMAL")     /* | all    */
+                    || !stricmp(param->str, "/MIN")             /* | ignore */
+                    || !stricmp(param->str, "/MAX")             /* | all    */
                     || !stricmp(param->str, "/BELOWNORMAL")) {  /* | that   */
                                                                 /* | shitty */
             /* do nothing */                                    /* | opts   */
-- 
2.43.0


From 1c5705e803c62e39a2b7b8942d43c8df105118c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 109/173] fix: a script could not be run by its absolute path

---
 pbat/init/pBat_Init.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index b448418..20a3ce9 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -302,6 +302,12 @@ char* pBat_GetParameters(char** argv, char** lpFileName, int* bExitAfterCmd, int
     /* get command line arguments */
     for (i=1; argv[i]; i++) {
 
+#if !defined(WIN32)
+        /* absolute paths begin just like switches */
+        if (*argv[i]=='/' && bGetSwitch && pBat_FileExists(argv[i]))
+            bGetSwitch = 0;
+#endif
+
         if (*argv[i]=='/' && bGetSwitch) {
 
             argv[i]++;
-- 
2.43.0


From 5a45f6d22f191c75471415f46b6ba31bbe296dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 110/173] fix: START failed to run a script given by its
 absolute path

---
 pbat/command/pBat_Start.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 3550acd..23c5526 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -296,7 +296,8 @@ int pBat_CmdStart(char* line)
                     if (bCmdlyCorrect)
                         pBat_EsCat(param, "c");
 
-                    pBat_EsCat(param, " ");
+                    /* the path of the script is no switch */
+                    pBat_EsCat(param, " // ");
                     pBat_EsCat(param, line);
 
                 } else {
-- 
2.43.0


From a5c0f681b70bc6959bcbb344ade1a96345d56ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 111/173] fix: attributes given after /A:Q made pBat verbose
 again

---
 pbat/init/pBat_Init.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 20a3ce9..0ad2757 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -315,7 +315,9 @@ char* pBat_GetParameters(char** argv, char** lpFileName, int* bExitAfterCmd, int
             switch(toupper(*argv[i])) {
 
                 case 'A':
-                    *bQuiet = pBat_InitSetModes(argv[i]);
+                    if (pBat_InitSetModes(argv[i]))
+                        *bQuiet = TRUE;
+
                     break;
 
                 case 'K':
-- 
2.43.0


From 6100beccaa41f8abf99d81bb0613d9b207127598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 112/173] fix: a blank was added to the commands given by /C
 and /K

---
 pbat/init/pBat_Init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 0ad2757..608a8f5 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -352,7 +352,8 @@ char* pBat_GetParameters(char** argv, char** lpFileName, int* bExitAfterCmd, int
                                 pBat_EsCat(lpCmdC,  argv[i]);
                             }
 
-                            pBat_EsCat(lpCmdC, " ");
+                            if (argv[i+1] != NULL)
+                                pBat_EsCat(lpCmdC, " ");
 
                         } while ((argv[i+1] != NULL) && i++);
 
-- 
2.43.0


From a789f06e849932d014e9f73bc30daac7975e5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 113/173] fix: PECHO.text was not recognized as PECHO

---
 pbat/command/pBat_CommandInfo.c | 2 +-
 pbat/command/pBat_Pecho.c       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_CommandInfo.c b/pbat/command/pBat_CommandInfo.c
index e2976be..26bfc07 100644
--- a/pbat/command/pBat_CommandInfo.c
+++ b/pbat/command/pBat_CommandInfo.c
@@ -74,7 +74,7 @@ COMMANDINFO lpCmdInfo[]= {
 	{"WC", pBat_CmdWc, STRLEN("WC")},
 	{"XARGS", pBat_CmdXargs, STRLEN("XARGS")},
 	{"PROMPT", pBat_CmdPrompt, STRLEN("PROMPT")},
-	{"PECHO", pBat_CmdPecho, STRLEN("PECHO")},
+	{"PECHO", pBat_CmdPecho, 0},
 	{"TIMEOUT", pBat_CmdTimeout, STRLEN("TIMEOUT")},
 	{"MOD", pBat_CmdMod, STRLEN("MOD")},
 	{"LOCALE", pBat_CmdLocale, STRLEN("LOCALE")},
diff --git a/pbat/command/pBat_Pecho.c b/pbat/command/pBat_Pecho.c
index 8bc36b7..58e4945 100644
--- a/pbat/command/pBat_Pecho.c
+++ b/pbat/command/pBat_Pecho.c
@@ -51,14 +51,14 @@ int pBat_CmdPecho(char* lpLine)
 	    && !ispunct(*lpLine)
 	    && *lpLine!='\0') {
 
-		pBat_ShowErrorMessage(PBAT_COMMAND_ERROR, lpLine-4, FALSE);
+		pBat_ShowErrorMessage(PBAT_COMMAND_ERROR, lpLine-5, FALSE);
 		return PBAT_COMMAND_ERROR;
 
 	}
 
 	lpEsParameter=pBat_EsInit_Cached();
 
-    pBat_GetEndOfLine(lpLine+1, lpEsParameter);
+    pBat_GetEndOfLine(*lpLine ? lpLine+1 : lpLine, lpEsParameter);
 
     if (!ispunct(*lpLine) &&
         !strcmp(lpEsParameter->str, "/?")) {
-- 
2.43.0


From 628393423a90471a15a60178e18094db61c7cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 114/173] fix: DUMP showed wrong values for types ULL, F and D

---
 dump/dump.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index efcb24b..212f5ed 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -51,10 +51,10 @@
 #define DUMP_USHORT 3
 #define DUMP_INT 4
 #define DUMP_UINT 5
-#define DUMP_LONGLONG 5
-#define DUMP_ULONGLONG 6
-#define DUMP_FLOAT 7
-#define DUMP_DOUBLE 8
+#define DUMP_LONGLONG 6
+#define DUMP_ULONGLONG 7
+#define DUMP_FLOAT 8
+#define DUMP_DOUBLE 9
 
 #define DUMP_ADDRESS 0x1
 #define DUMP_TITLE 0x2
-- 
2.43.0


From 9b77279efca9f896282c5c92fae11a1220c3f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 115/173] fix: DUMP /H sign-extended negative elements and did
 not support floats

---
 dump/dump.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dump/dump.c b/dump/dump.c
index 212f5ed..b57c460 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -193,6 +193,14 @@ void fill_context(int type, int flags, struct dump_t* context)
                                 / (size + s + c);
     context->width = size;
     context->flags = flags;
+
+    /* the hexadecimal value of an element is the one of its bytes */
+    if (flags & DUMP_HEX)
+        type = (types[type].size == sizeof(char)) ? DUMP_UCHAR
+             : (types[type].size == sizeof(short)) ? DUMP_USHORT
+             : (types[type].size == sizeof(int)) ? DUMP_UINT
+             : DUMP_ULONGLONG;
+
     context->type = type;
 }
 
-- 
2.43.0


From 88acba367a5d1daff4bfea7bcad146839792784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 116/173] fix: DUMP showed characters past the end of the last
 line

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index b57c460..a33f698 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -285,7 +285,7 @@ int dump_fd(int fd, struct dump_t* context)
 
             p = chars;
 
-            while (p < chars + size) {
+            while (p < chars + count) {
 
                 if (*p < 0x20)
                     *p = '.';
-- 
2.43.0


From 30d53d1ece6e3180171b5117d1d8a651ab45d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 117/173] fix: DUMP /B read memory past its argument forever

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index a33f698..430f3ce 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -370,7 +370,7 @@ int main(int argc, char** argv)
 
             flags &= ~ DUMP_DEFAULT;
 
-            while (*argv) {
+            while (**argv) {
                 switch (**argv) {
 
                 case 'a':
-- 
2.43.0


From 6d77863e45bcf46bd0ec9dfa4c6c72643e598af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 118/173] fix: DUMP padded partial reads of pipes and crashed
 on read errors

---
 dump/dump.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index 430f3ce..963aa4f 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -220,6 +220,25 @@ int get_type(const char* type)
     return -1;
 }
 
+/* read until size bytes are available, a pipe may give less at once */
+int read_full(int fd, char* data, size_t size)
+{
+    size_t total = 0;
+    int count;
+
+    while (total < size
+           && (count = read(fd, data + total, size - total))) {
+
+        if (count < 0)
+            return -1;
+
+        total += count;
+
+    }
+
+    return total;
+}
+
 int dump_fd(int fd, struct dump_t* context)
 {
     char *chars, *data, *p, *addr = NULL, *spaces;
@@ -236,9 +255,9 @@ int dump_fd(int fd, struct dump_t* context)
 
     spaces = (context->flags & DUMP_QUIET) ? "" : " ";
 
-    while ((count = read(fd, data, size))) {
+    while ((count = read_full(fd, data, size)) > 0) {
 
-        if (count < size) {
+        if ((size_t)count < size) {
              /* we reached eof and count is not a multiple of the
                 size we set just pad with 0 until the next
                 multiple ... */
@@ -306,6 +325,13 @@ int dump_fd(int fd, struct dump_t* context)
     free(chars);
     free(data);
 
+    if (count < 0) {
+
+        fprintf(stderr, "dump: read error.\n");
+        return -1;
+
+    }
+
     return 0;
 
 }
-- 
2.43.0


From 0594f51a5813f7127eb2c4e2285a3c507601db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 119/173] fix: the addresses shown by DUMP were not aligned,
 the first one being (nil)

---
 dump/dump.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index 963aa4f..5016ef5 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -241,7 +241,8 @@ int read_full(int fd, char* data, size_t size)
 
 int dump_fd(int fd, struct dump_t* context)
 {
-    char *chars, *data, *p, *addr = NULL, *spaces;
+    char *chars, *data, *p, *spaces;
+    size_t addr = 0;
     int count, i;
     size_t size = context->n * context->size;
 
@@ -272,7 +273,8 @@ int dump_fd(int fd, struct dump_t* context)
         p = data;
 
         if (context->flags & DUMP_ADDRESS)
-            printf("%p%s", addr, spaces);
+            printf("%0*llx%s", (int)(2 * sizeof(void*)),
+                   (unsigned long long)addr, spaces);
 
         /* loop over elements of the buffer */
         while (p < data + count) {
-- 
2.43.0


From 6ed73fa1792699894117dca50e859fc24d8168d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 120/173] fix: DUMP took absolute paths beginning with /T or /B
 for options

---
 dump/dump.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index 5016ef5..f38531c 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -358,6 +358,12 @@ int dump_file(const char* file, struct dump_t* context)
     return ret;
 }
 
+/* tell options from the absolute paths beginning with the same letters */
+int is_path(const char* rest)
+{
+    return *rest != ':' && strchr(rest, '/') != NULL;
+}
+
 int main(int argc, char** argv)
 {
     /* char* p; */
@@ -371,7 +377,8 @@ int main(int argc, char** argv)
 
     while(*argv) {
 
-        if (!strnicmp(*argv, "/T", 2)) {
+        if (!strnicmp(*argv, "/T", 2)
+            && !is_path(*argv + 2)) {
             *argv += 2;
 
             if (*(*argv) == ':')
@@ -389,7 +396,8 @@ int main(int argc, char** argv)
 
             flags |= DUMP_HEX;
 
-        } else if (!strnicmp(*argv, "/B", 2)) {
+        } else if (!strnicmp(*argv, "/B", 2)
+                   && !is_path(*argv + 2)) {
 
             *argv += 2;
 
-- 
2.43.0


From ab0fc993430e9ec4955568a6859930e2358eaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 121/173] fix: TEA read past the end of long words followed by
 other markup

---
 tea/src/out/tea_text_out.c | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/tea/src/out/tea_text_out.c b/tea/src/out/tea_text_out.c
index 1dbd63f..6bf3e9c 100644
--- a/tea/src/out/tea_text_out.c
+++ b/tea/src/out/tea_text_out.c
@@ -132,8 +132,7 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 	       iLeftNl;
 	int    bFirstLine=TRUE;
 	int    iNoMargin=FALSE;
-	char   *lpBlock,
-	       *lpNext;
+	char   *lpBlock;
 
 	if ((iMargin >= iLength)
 	    || (iFirstLine >= iLength)) {
@@ -178,29 +177,16 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 
 			lpBlock=Tea_OutputLineT(lpBlock, pFile, lpTeaNode, &iLeft);
 
-			if (iLeftNl==iLeft) {
+			if (lpBlock && iLeftNl==iLeft) {
 
 				/* if nothing has been written since we wrote the
 				   last line, it should be that the world is to
 				   long too fit in a single line, thus, we should try
 				   to split it in various lines */
 
-				while (iLeft) {
+				lpBlock=Tea_OutputWord(lpBlock, pFile, &iLeft);
 
-					lpNext=pBat_GetNextChar(lpBlock);
-
-					while (lpBlock < lpNext) {
-
-						fputc(*lpBlock, pFile);
-						lpBlock++;
-
-					}
-
-					iLeft--;
-
-				}
-
-				while (*lpBlock==' ')
+				while (lpBlock && *lpBlock==' ')
 					lpBlock++;
 
 			}
-- 
2.43.0


From 048a886c5b52ef33ed313213e5c63877e675908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 122/173] fix: TEA never ended on words longer than a line in
 titles, code and ANSI text

---
 tea/src/out/tea_ansi_out.c | 16 +++++++++++++++-
 tea/src/out/tea_text_out.c |  8 +++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/tea/src/out/tea_ansi_out.c b/tea/src/out/tea_ansi_out.c
index 0fbc7ed..e21e183 100644
--- a/tea/src/out/tea_ansi_out.c
+++ b/tea/src/out/tea_ansi_out.c
@@ -84,7 +84,8 @@ void Tea_TextAnsiOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** ar
 
 void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength, TEANODE* lpTeaNode, char* lpNl, FILE* pFile)
 {
-	size_t iLeft;
+	size_t iLeft,
+	       iLeftNl;
 	int    bFirstLine=TRUE;
 	int    iNoMargin=FALSE;
 	char   *lpBlock;
@@ -138,10 +139,23 @@ void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLeng
 
 				}
 
+				iLeftNl=iLeft;
+
 			}
 
 			lpBlock=Tea_OutputLineT(lpBlock, pFile, lpTeaNode, &iLeft);
 
+			if (lpBlock && iLeftNl==iLeft) {
+
+				/* the word is too long to fit in a single line,
+				   split it */
+				lpBlock=Tea_OutputWord(lpBlock, pFile, &iLeft);
+
+				while (lpBlock && *lpBlock==' ')
+					lpBlock++;
+
+			}
+
 		}
 
 		if (lpTeaNode->iNodeType
diff --git a/tea/src/out/tea_text_out.c b/tea/src/out/tea_text_out.c
index 6bf3e9c..ebadcf3 100644
--- a/tea/src/out/tea_text_out.c
+++ b/tea/src/out/tea_text_out.c
@@ -77,7 +77,8 @@ void Tea_TextOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv)
 
 void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLength, char* lpBlock, char* lpNl, FILE* pFile)
 {
-	size_t iLeft;
+	size_t iLeft,
+	       iLeftNl;
 	int    bFirstLine=TRUE;
 
 	if ((iMargin >= iLength)
@@ -120,8 +121,13 @@ void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLe
 
 		}
 
+		iLeftNl=iLeft;
 		lpBlock=Tea_OutputLine(lpBlock, pFile, &iLeft);
 
+		/* the word is too long to fit in a single line, split it */
+		if (lpBlock && iLeftNl==iLeft)
+			lpBlock=Tea_OutputWord(lpBlock, pFile, &iLeft);
+
 	}
 
 }
-- 
2.43.0


From a671f4992d0ef2a441cb81847e5718aece2f975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 123/173] fix: TEA took absolute paths beginning with /O or /E
 for options

---
 tea/src/tea.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tea/src/tea.c b/tea/src/tea.c
index a8c460b..dd10243 100644
--- a/tea/src/tea.c
+++ b/tea/src/tea.c
@@ -68,7 +68,8 @@ int main(int argc, char *argv[])
 
 	while (argv[i] && iContinue) {
 
-		if (!strnicmp("/O", argv[i], 2)
+		if ((!strnicmp("/O", argv[i], 2)
+             && (argv[i][2]==':' || !strchr(argv[i]+2, '/')))
             || !strnicmp("-O", argv[i], 2)) {
 
 			argv[i]+=2;
@@ -105,7 +106,8 @@ int main(int argc, char *argv[])
 				exit(-1);
 			}
 
-		} else if (!strnicmp("/E", argv[i], 2)
+		} else if ((!strnicmp("/E", argv[i], 2)
+                    && (argv[i][2]==':' || !strchr(argv[i]+2, '/')))
                    || !strnicmp("-E", argv[i], 2)) {
 
 			argv[i]+=2;
-- 
2.43.0


From 89d4158803d742bbe954bc57b4340cc2221bdda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 124/173] fix: TEA dropped the blank after an escaped character
 in titles

---
 tea/src/Tea_Load.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tea/src/Tea_Load.c b/tea/src/Tea_Load.c
index ea4e9b7..064c0af 100644
--- a/tea/src/Tea_Load.c
+++ b/tea/src/Tea_Load.c
@@ -452,6 +452,7 @@ int         Tea_SweepSpace(char* lpContent)
 			if (*(lpContent+1)) {
 
 				lpContent++;
+				iSpaceGroup=FALSE;
 
 			} else {
 
-- 
2.43.0


From 2c2d3cce9c3b1a765e77fa4c01d9037b59983a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 125/173] fix: REN wrote past the end of the new name when it
 is too long

---
 pbat/command/pBat_Ren.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index a7696e8..1ec3872 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -104,7 +104,7 @@ int pBat_CmdRen(char* lpLine)
 			}
 
 			/* cat with new name */
-			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest));
+			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest)-1);
 			lpFileDest[FILENAME_MAX-1]='\0';
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
-- 
2.43.0


From ef91de6979fbddd971d3379fd737f28dc7e587b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 126/173] fix: the command line read freed memory after
 expanding a long line

---
 pbat/core/pBat_Read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 2b1814f..c079d9d 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -190,8 +190,6 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 		lpCh=pBat_SkipAllBlanks(pBat_EsToChar(lpesTmp));
 
-        pBat_ReplaceVars(lpesTmp);
-
 		/* split comments label and void lines from input */
 		if (*lpCh==':' || *lpCh=='\0' || *lpCh=='\n') {
 
@@ -205,6 +203,8 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
             continue;
 		}
 
+        pBat_ReplaceVars(lpesTmp);
+
         /* the read line should *definitely* end with a '\n' (in
            in fact it always do, except when reaching end of file) */
         if (strchr(lpesTmp->str, '\n') == NULL)
-- 
2.43.0


From 8bcfbb8de74513fea28f693571e4ed68dc1b221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 127/173] fix: an unclosed list of FOR was followed past the
 end of the line

---
 pbat/core/pBat_Args.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index dd8075e..0710f94 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -171,7 +171,8 @@ char* pBat_GetNextBlockEs(char* lpLine, ESTR* lpReturn)
 	/* replace delayed expansion */
 	pBat_DelayedExpand(lpReturn);
 
-	return lpNext+1;
+	/* the block may be ended by the end of the line */
+	return *lpNext ? lpNext+1 : lpNext;
 
 }
 
-- 
2.43.0


From 272e9f7057d57c2a636e5a283d7c697064be85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 128/173] fix: reading a line used unterminated memory when the
 input fails

---
 libpbat/estr/pBat_Estr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index b7cd3a8..fb40017 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -218,8 +218,10 @@ LIBPBAT int pBat_EsGet(ESTR* ptrESTR, FILE* ptrFile)
         if(lpResult==NULL) {
 
             /* this means we will continue because there is no more
-               stuff to get from the file */
+               stuff to get from the file, reading may have failed
+               after fgets() stored something without ending it */
 
+            *ptrCursor='\0';
             break;
 
         } else {
-- 
2.43.0


From 6cd46cc004406fb33c432b0f240f4eaf28071523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 129/173] fix: a null byte in a file made the line buffer grow
 without limit

---
 libpbat/estr/pBat_Estr.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index fb40017..9dd8fae 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -199,7 +199,8 @@ LIBPBAT int pBat_EsFree(ESTR* ptrESTR)
 
 LIBPBAT int pBat_EsGet(ESTR* ptrESTR, FILE* ptrFile)
 {
-    int iCurrentL=0;
+    int iCurrentL=0,
+        iLength;
 
     size_t iTotalBytesRead=0;
 
@@ -239,6 +240,20 @@ LIBPBAT int pBat_EsGet(ESTR* ptrESTR, FILE* ptrFile)
         if (crLf!=NULL)
             break;
 
+        iLength=strlen(ptrCursor);
+
+        if (iLength < iCurrentL) {
+
+            /* The buffer is not full, thus either the file ends or a
+               null byte hides the end of the line */
+
+            if (!feof(ptrFile))
+                strcpy(ptrCursor+iLength, "\n");
+
+            break;
+
+        }
+
         iCurrentL=ptrESTR->len;
 
         ptrESTR->len=ptrESTR->len*2;
-- 
2.43.0


From 564d228a8a4ea1578a95c8f12c5afad442aad558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 130/173] fix: MOVE /? crashed as its help text was missing

---
 pbat/lang/pBat_ShowHelp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index 5a83b3e..ee32ead 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -65,6 +65,10 @@ void pBat_LoadInternalHelp(void)
 	    =gettext("Copy file(s) to another location.\n"
 	             "Usage: COPY [/R] [/-Y | /Y] [/A[:]attributes] source [+] ... destination\n");
 
+	lpInternalHelp[PBAT_HELP_MOVE]
+	    =gettext("Move file(s) to another location.\n"
+	             "Usage: MOVE [/-Y | /Y] [/A[:]attributes] source ... destination\n");
+
 	lpInternalHelp[PBAT_HELP_CALL]
 	    =gettext("Call a script or a label from the current context.\n"
 	             "Usage: CALL [/e] [file] [:label] [parameters ...]\n");
-- 
2.43.0


From 2a97e39ca9f501456e51f9bd15e3e8093286a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 131/173] fix: LOCALE took its own name for the path of the
 translations

---
 pbat/command/pBat_Locale.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Locale.c b/pbat/command/pBat_Locale.c
index 4740920..48023f8 100644
--- a/pbat/command/pBat_Locale.c
+++ b/pbat/command/pBat_Locale.c
@@ -68,6 +68,8 @@ int pBat_CmdLocale(char* line)
     ESTR* param = pBat_EsInit_Cached();
     int done = 0, status = 0;
 
+    line += 6;
+
     while (line = pBat_GetNextParameterEs(line, param)) {
 
         if (done) {
-- 
2.43.0


From d76c3b7347c6e3d6f4e3ebaac629230eaf23ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 132/173] fix: no translation was found when the categories of
 the locale differ

---
 microgettext/microgettext.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/microgettext/microgettext.c b/microgettext/microgettext.c
index 57f2f7f..2a97263 100644
--- a/microgettext/microgettext.c
+++ b/microgettext/microgettext.c
@@ -31,6 +31,14 @@ THE SOFTWARE.
 #define MICROGETTEXT_DOMAIN_MAX 100
 #define MICROGETTEXT_DEFAULT_BASEDIR "."
 
+/* The category which tells the language of messages. LC_ALL gives no useful
+   name as soon as the categories differ, but some systems have nothing else */
+#ifdef LC_MESSAGES
+#define MICROGETTEXT_CATEGORY LC_MESSAGES
+#else
+#define MICROGETTEXT_CATEGORY LC_ALL
+#endif
+
 struct domain_t {
     char* name;
     void* buf;
@@ -619,7 +627,7 @@ fail:
 const char* dgettext(const char* restrict dmn,
                             const char* restrict msg)
 {
-    return dcgettext(dmn, msg, LC_ALL);
+    return dcgettext(dmn, msg, MICROGETTEXT_CATEGORY);
 }
 
 /* Translates messages
@@ -627,7 +635,7 @@ const char* dgettext(const char* restrict dmn,
 const char* gettext(const char* restrict msg)
 {
     return dcgettext(*current_domain ? current_domain : "C",
-             msg, LC_ALL);
+             msg, MICROGETTEXT_CATEGORY);
 }
 
 /* Sets a default domain for gettext() function */
-- 
2.43.0


From 25b7f35ccfaf428bb620f5cee28f8df38be819af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 133/173] fix: REN /? printed no help, its text was replaced by
 that of REM

---
 pbat/command/pBat_Ren.c   | 8 ++++++++
 pbat/lang/pBat_ShowHelp.c | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index 1ec3872..c0663f4 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -69,6 +69,14 @@ int pBat_CmdRen(char* lpLine)
 
 	if ((lpLine=pBat_GetNextParameterEs(lpLine, lpEstr))) {
 
+		if (!strcmp(pBat_EsToChar(lpEstr), "/?")) {
+
+			pBat_ShowInternalHelp(PBAT_HELP_REN);
+			pBat_EsFree_Cached(lpEstr);
+			return 0;
+
+		}
+
 		strncpy(lpFileName, pBat_EsToFullPath(lpEstr), FILENAME_MAX);
 		lpFileName[FILENAME_MAX-1]='\0';
 		/* can't assume that what was buffered is NULL-terminated
diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index ee32ead..49dc29d 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -141,7 +141,7 @@ void pBat_LoadInternalHelp(void)
 	             "Usage: REN file name.ext\n"
 	             "       RENAME file name.ext\n");
 
-	lpInternalHelp[PBAT_HELP_REN]
+	lpInternalHelp[PBAT_HELP_REM]
 	    =gettext("Introduce a comment.\n"
 	             "Usage: REM comment\n");
 
-- 
2.43.0


From 5c0b237623ed53c4f7e735f0171000039f922a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 134/173] fix: commands and variables with an i were not found
 in Turkish locales

---
 pbat/init/pBat_Init.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 608a8f5..0abf188 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -179,6 +179,14 @@ void pBat_Init(void)
        Example if LC_NUMERIC is french, then 1.1 becomes 1,1 */
     setlocale(LC_NUMERIC, "C");
 
+#if !defined(WIN32)
+    /* Commands, options and variables are the same in lower and upper
+       case regardless of the chosen language, whereas for example 'i' and
+       'I' are different letters in turkish */
+    if (setlocale(LC_CTYPE, "C.UTF-8") == NULL)
+        setlocale(LC_CTYPE, "C");
+#endif
+
     /* Set the value of %PBAT_PATH% */
     lpInitVar[4]="PBAT_PATH";
     lpInitVar[5]=lppBatPath;
-- 
2.43.0


From 75dcc943a991964ed83fd2cbc1828684a52f22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 135/173] fix: IF, FOR and blocks crashed on malformed blocks

---
 pbat/core/pBat_Args.c | 4 +++-
 pbat/core/pBat_Run.c  | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 0710f94..b8d1419 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -144,7 +144,9 @@ char* pBat_GetBlockLine(char* pLine, BLOCKINFO* pBk)
 {
     char *pEnd;
 
-    pEnd = pBat_GetBlockLineEnd(pLine);
+    /* if a block is malformed, go to the end of line */
+    if ((pEnd = pBat_GetBlockLineEnd(pLine)) == NULL)
+        for (pEnd = pLine; *pEnd != '\0' && *pEnd != '\n'; pEnd ++);
 
     if (*pLine=='(')
         pLine++;
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 887fbc5..b50df6d 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -562,8 +562,11 @@ int pBat_RunBlock(BLOCKINFO* lpbkInfo)
 
             lpBlockEnd = pBat_SkipBlanks(lpBlockEnd);
 
-            lpBlockEnd = pBat_GetBlockLineEnd(lpBlockEnd);
-            assert(lpBlockEnd);
+            lpBlockBegin = lpBlockEnd;
+
+            /* if a block is malformed, take everything that is left */
+            if ((lpBlockEnd = pBat_GetBlockLineEnd(lpBlockBegin)) == NULL)
+                lpBlockEnd = lpBlockBegin + strlen(lpBlockBegin);
 
             if (*lpBlockEnd == '&' || *lpBlockEnd == '|')
                 lpBlockEnd ++;
-- 
2.43.0


From df1efc6811c4e6ea9f28607a64aac5d0c0975fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 136/173] fix: IF crashed on malformed expressions in brackets

---
 pbat/command/pBat_IfExp.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 608efef..1a073b6 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -61,11 +61,14 @@ void  _Dump_Line_t(ifexp_line_t* line)
 char * pBat_IfExp_Compute(char* line, int* ret, int flags)
 {
     ifexp_t* exp;
-    ifexp_line_t* lineexp, *linetmp;
+    ifexp_line_t* lineexp = NULL, *linetmp;
 
     line = pBat_IfExp_ParseLine(line, &lineexp);
 
-    if (lineexp == NULL){
+    /* if line is NULL, the last bracket is missing */
+    if (lineexp == NULL || line == NULL){
+
+        pBat_IfExp_FreeLine(lineexp);
 
         *ret = -1; /* report error */
         return line;
@@ -174,6 +177,9 @@ int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags)
 
     FILELIST* files;
 
+    if (test == NULL)
+        return -1; /* an operand is missing */
+
     if (!stricmp(test->op->str, "NOT")) {
 
         neg = 1;
@@ -286,7 +292,8 @@ void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
 
     } else {
 
-        child->child.ops = line;
+        /* the expression is malformed, parts of line are freed already */
+        child->child.ops = NULL;
         child->type = IFEXP_NODE_OPS;
 
     }
@@ -363,6 +370,8 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
         pBat_EsFree_Cached(line->op);
         free (line);
 
+        return 1;
+
     }
 
     if (EQUCHR(line->op->str, '['))
-- 
2.43.0


From 14cc30496bcbdc60ed8ff8dd8bd5a5f462cc9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 137/173] fix: START crashed when /NODE or /AFFINITY ends the
 line

---
 pbat/command/pBat_Start.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 23c5526..32e0cdb 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -143,7 +143,7 @@ int pBat_CmdStart(char* line)
 
     line +=5;
 
-    while (next = pBat_GetNextParameterEs(line, param)) {
+    while (line && (next = pBat_GetNextParameterEs(line, param))) {
 
         if (!stricmp(param->str, "/?")) {
 
-- 
2.43.0


From 44ba944d92a2492618b097b1c36d23d5c7a3485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 138/173] fix: no translation was found for the languages
 Windows calls Spanish, Kikuyu, Ossetian and Uighur

---
 microgettext/microgettext.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/microgettext/microgettext.c b/microgettext/microgettext.c
index 2a97263..5c87bad 100644
--- a/microgettext/microgettext.c
+++ b/microgettext/microgettext.c
@@ -121,7 +121,7 @@ static const char* iso639[] = {
 "da" ,"danish",
 "dv" ,"divehi",
 "nl" ,"dutch",
-"nl" ,"dutch;",
+"nl" ,"dutch",
 "dz" ,"dzongkha",
 "en" ,"english",
 "eo" ,"esperanto",
@@ -167,7 +167,7 @@ static const char* iso639[] = {
 "kr" ,"kanuri",
 "ks" ,"kashmiri",
 "kk" ,"kazakh",
-"ki" ,"kikuyu;",
+"ki" ,"kikuyu",
 "rw" ,"kinyarwanda",
 "ky" ,"kirghiz",
 "kv" ,"komi",
@@ -206,7 +206,7 @@ static const char* iso639[] = {
 "oj" ,"ojibwa",
 "or" ,"oriya",
 "om" ,"oromo",
-"os" ,"ossetian;",
+"os" ,"ossetian",
 "pi" ,"pali",
 "pa" ,"panjabi",
 "fa" ,"persian",
@@ -233,7 +233,7 @@ static const char* iso639[] = {
 "sl" ,"slovenian",
 "so" ,"somali",
 "st" ,"sotho",
-"es" ,"spanish;",
+"es" ,"spanish",
 "su" ,"sundanese",
 "sw" ,"swahili",
 "ss" ,"swati",
@@ -254,7 +254,7 @@ static const char* iso639[] = {
 "tr" ,"turkish",
 "tk" ,"turkmen",
 "tw" ,"twi",
-"ug" ,"uighur;",
+"ug" ,"uighur",
 "uk" ,"ukrainian",
 "ur" ,"urdu",
 "uz" ,"uzbek",
-- 
2.43.0


From ca74d15b6525fd9b71130fb89e2aa4bfa37fd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 139/173] fix: no translation was found for locales without
 territory

---
 microgettext/microgettext.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/microgettext/microgettext.c b/microgettext/microgettext.c
index 5c87bad..775be52 100644
--- a/microgettext/microgettext.c
+++ b/microgettext/microgettext.c
@@ -491,8 +491,9 @@ void microgettext_get_lang(int cat, char* restrict loc, size_t size)
 
     snprintf(loc, size, "%s", setlocale(cat, NULL));
 
-    /* truncate at the first '_' */
-    if ((p = strchr(loc, '_')))
+    /* keep only the language: it may be followed by a territory (_), a
+       codeset (.) and a modifier (@) */
+    if ((p = strpbrk(loc, "_.@")))
         *p = '\0';
 
     microgettext_lower(loc);
-- 
2.43.0


From 17901f563db1b601af27b23be8f52e22cfb6f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 140/173] fix: damaged translation files made every program
 crash

---
 microgettext/microgettext.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/microgettext/microgettext.c b/microgettext/microgettext.c
index 775be52..51bbdca 100644
--- a/microgettext/microgettext.c
+++ b/microgettext/microgettext.c
@@ -350,7 +350,8 @@ int microgettext_make_array(const char** array, size_t nitems,
     char* char_buf = buf;
 
     /* Just check there's enough room for the whole table */
-    if (microgettext_check_bounds(len, char, offset + 2 * nitems * sizeof(int)))
+    if (offset < 0 || offset > len
+        || nitems > (len - offset) / (2 * sizeof(int)))
         return -1;
 
     /* Use this cast because offset*sizeof(char) is not always a multiple of
@@ -360,8 +361,10 @@ int microgettext_make_array(const char** array, size_t nitems,
     for (i=0; i < nitems; i++) {
 
         /* Just check that there is enough room in the file to find
-           the strings */
-        if (microgettext_check_bounds(len, char, int_buf[2*i + 1]))
+           the strings, including their null terminator */
+        if (int_buf[2*i + 1] < 0 || int_buf[2*i + 1] >= len
+            || memchr(char_buf + int_buf[2*i + 1], '\0',
+                                    len - int_buf[2*i + 1]) == NULL)
             return -1;
 
         array[i] = buf + int_buf[2*i + 1];
@@ -388,10 +391,11 @@ int microgettext_load_mofile(struct domain_t* restrict d,
 
     int_buf = (int*) buf;
 
-    /* Check that we've got the magic number at position 0 */
+    /* Check that the header is complete and that we've got the magic
+       number at position 0. The files of machines which order bytes the
+       other way can not be read */
     if (microgettext_check_bounds(len, int, 4)
-        && (int_buf[0] != 0x950412de)
-        && (int_buf[0] != 0xde120495))
+        || int_buf[0] != 0x950412de)
         goto error;
 
 
-- 
2.43.0


From b75e48b88b29b894c259155835bed59d2b8991a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 141/173] fix: PAUSE only showed its help when one character is
 before /?

---
 pbat/command/pBat_Pause.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Pause.c b/pbat/command/pBat_Pause.c
index 61185bb..8d56767 100644
--- a/pbat/command/pBat_Pause.c
+++ b/pbat/command/pBat_Pause.c
@@ -42,9 +42,10 @@
 
 int pBat_CmdPause(char* lpLine)
 {
-	lpLine = pBat_SkipBlanks(lpLine);
+	/* skip the name of the command and the blanks that follow */
+	lpLine = pBat_SkipBlanks(lpLine + 5);
 
-	if (!strncmp(lpLine+6, "/?", 2)) {
+	if (!strncmp(lpLine, "/?", 2)) {
 
 		pBat_ShowInternalHelp(PBAT_HELP_PAUSE);
 		return 0;
-- 
2.43.0


From 3bd214b24bdc999017ef44c3d31ab1de0c25de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 142/173] fix: Ctrl-T broke multi-byte characters of the edited
 line and then hung

---
 pbat/linenoise/linenoise.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 905c02b..f96c141 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -1085,10 +1085,16 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             break;
         case CTRL_T:    /* ctrl-t, swaps current character with previous. */
             if (l.pos > 0 && l.pos < l.len) {
-                int aux = buf[l.pos-1];
-                buf[l.pos-1] = buf[l.pos];
-                buf[l.pos] = aux;
-                if (l.pos != l.len-1) l.pos++;
+                /* swap whole characters, which may take several bytes */
+                char aux[LINENOISE_MAX_LINE];
+                size_t prev = prevCharLen(buf,l.len,l.pos,NULL);
+                size_t next = nextCharLen(buf,l.len,l.pos,NULL);
+                int last = (l.pos + next == l.len);
+
+                memcpy(aux, buf + l.pos - prev, prev);
+                memmove(buf + l.pos - prev, buf + l.pos, next);
+                memcpy(buf + l.pos - prev + next, aux, prev);
+                l.pos += last ? next - prev : next;
                 refreshLine(&l);
             }
             break;
-- 
2.43.0


From f0dce7616d93e9e60c453eabdb7a3a2461ed7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 143/173] fix: completing a name in the middle of a line
 garbled the end of the line

---
 pbat/linenoise/linenoise.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index f96c141..7c78d8d 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -516,7 +516,8 @@ void xlibcu8_completion_insert(const char* completion,
 
     *size -= len;
 
-    memcpy(*pos + len, *pos, *buf - *pos);
+    /* these overlap when the end of the line is longer than the completion */
+    memmove(*pos + len, *pos, *buf - *pos);
     memcpy(*pos, completion, len);
 
     *pos += len;
-- 
2.43.0


From 7074419d08b623d3616310cf3517b18c6c140b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 144/173] fix: the prompt was followed by (null) on terminals
 that can not be edited on

---
 pbat/linenoise/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 7c78d8d..849f749 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -1294,7 +1294,7 @@ char *linenoise(const char *prompt) {
     } else if (isUnsupportedTerm()) {
         size_t len;
 
-        printf("%s",prompt);
+        if (prompt) printf("%s",prompt);
         fflush(stdout);
         if (fgets(buf,LINENOISE_MAX_LINE,stdin) == NULL) return NULL;
         len = strlen(buf);
-- 
2.43.0


From f55ff5fcab0106f3dd8906ebb3cde91c523a5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 145/173] fix: a combining character at the start of the edited
 line hung the interpreter

---
 pbat/linenoise/utf8.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pbat/linenoise/utf8.c b/pbat/linenoise/utf8.c
index cca22f5..677dfc9 100644
--- a/pbat/linenoise/utf8.c
+++ b/pbat/linenoise/utf8.c
@@ -443,16 +443,18 @@ size_t linenoiseUtf8NextCharLen(const char* buf, size_t buf_len, size_t pos, siz
     size_t beg = pos;
     int cp;
     size_t len = utf8BytesToCodePoint(buf + pos, buf_len - pos, &cp);
-    if (isCombiningChar(cp)) {
-        /* NOTREACHED */
-        return 0;
+    if (len == 0) {
+        /* not UTF-8: a byte on its own */
+        if (col_len != NULL) *col_len = 1;
+        return 1;
     }
-    if (col_len != NULL) *col_len = isWideChar(cp) ? 2 : 1;
+    /* a line may begin with a combining character */
+    if (col_len != NULL) *col_len = isCombiningChar(cp) ? 0 : isWideChar(cp) ? 2 : 1;
     pos += len;
     while (pos < buf_len) {
         int cp;
         len = utf8BytesToCodePoint(buf + pos, buf_len - pos, &cp);
-        if (!isCombiningChar(cp)) return pos - beg;
+        if (len == 0 || !isCombiningChar(cp)) return pos - beg;
         pos += len;
     }
     return pos - beg;
@@ -467,14 +469,18 @@ size_t linenoiseUtf8PrevCharLen(const char* buf, size_t buf_len, size_t pos, siz
         size_t len = prevUtf8CharLen(buf, pos);
         pos -= len;
         int cp;
-        utf8BytesToCodePoint(buf + pos, len, &cp);
+        if (utf8BytesToCodePoint(buf + pos, len, &cp) == 0) {
+            if (col_len != NULL) *col_len = 1;
+            return end - pos;
+        }
         if (!isCombiningChar(cp)) {
             if (col_len != NULL) *col_len = isWideChar(cp) ? 2 : 1;
             return end - pos;
         }
     }
-    /* NOTREACHED */
-    return 0;
+    /* only combining characters */
+    if (col_len != NULL) *col_len = 0;
+    return end - pos;
 }
 
 /* Read a Unicode from file.
-- 
2.43.0


From 115ccf42ca6e5a48e7bd178a504380901d3345e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 146/173] fix: a byte which is not UTF-8 made the line editor
 run the unfinished line

---
 pbat/linenoise/utf8.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pbat/linenoise/utf8.c b/pbat/linenoise/utf8.c
index 677dfc9..3bdabf9 100644
--- a/pbat/linenoise/utf8.c
+++ b/pbat/linenoise/utf8.c
@@ -483,30 +483,45 @@ size_t linenoiseUtf8PrevCharLen(const char* buf, size_t buf_len, size_t pos, siz
     return end - pos;
 }
 
+/* Read exactly len bytes, which may come one at a time
+ */
+static size_t readBytes(int fd, char* buf, size_t len) {
+    size_t off = 0;
+    while (off < len) {
+        ssize_t nread = read(fd,buf+off,len-off);
+        if (nread <= 0) return 0;
+        off += nread;
+    }
+    return len;
+}
+
 /* Read a Unicode from file.
  */
 size_t linenoiseUtf8ReadCode(int fd, char* buf, size_t buf_len, int* cp) {
     if (buf_len < 1) return -1;
-    size_t nread = read(fd,&buf[0],1);
-    if (nread <= 0) return nread;
+    size_t nread;
+    do {
+        /* bytes which begin no character are left aside, they must not end
+           the line */
+        nread = readBytes(fd,&buf[0],1);
+        if (nread <= 0) return nread;
+    } while (((unsigned char)buf[0] & 0xC0) == 0x80 || (unsigned char)buf[0] >= 0xF8);
 
     unsigned char byte = buf[0];
     if ((byte & 0x80) == 0) {
         ;
     } else if ((byte & 0xE0) == 0xC0) {
         if (buf_len < 2) return -1;
-        nread = read(fd,&buf[1],1);
+        nread = readBytes(fd,&buf[1],1);
         if (nread <= 0) return nread;
     } else if ((byte & 0xF0) == 0xE0) {
         if (buf_len < 3) return -1;
-        nread = read(fd,&buf[1],2);
+        nread = readBytes(fd,&buf[1],2);
         if (nread <= 0) return nread;
     } else if ((byte & 0xF8) == 0xF0) {
         if (buf_len < 3) return -1;
-        nread = read(fd,&buf[1],3);
+        nread = readBytes(fd,&buf[1],3);
         if (nread <= 0) return nread;
-    } else {
-        return -1;
     }
 
     return utf8BytesToCodePoint(buf, buf_len, cp);
-- 
2.43.0


From 722a073dee8f5c662f59afac95fc245523bb1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 147/173] fix: unknown keys, such as F5 or Ctrl with an arrow,
 typed the end of their sequence in the line

---
 pbat/linenoise/linenoise.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 849f749..b08b7b8 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -1121,9 +1121,15 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             /* ESC [ sequences. */
             if (seq[0] == '[') {
                 if (seq[1] >= '0' && seq[1] <= '9') {
-                    /* Extended escape, read additional byte. */
-                    if (read(l.ifd,seq+2,1) == -1) break;
-                    if (seq[2] == '~') {
+                    /* Extended escape, read additional bytes, up to the
+                       final one. Keys that are not known must not leave the
+                       end of their sequence in the line */
+                    int n = 0;
+                    do {
+                        if (read(l.ifd,seq+2,1) != 1) break;
+                        n++;
+                    } while (seq[2] < 0x40 || seq[2] > 0x7e);
+                    if (seq[2] == '~' && n == 1) {
                         switch(seq[1]) {
                         case '3': /* Delete key. */
                             linenoiseEditDelete(&l);
-- 
2.43.0


From 9166a4974319211aff5988db1cbf76f34bb62752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 148/173] fix: completion inserted a part of a character when
 names differ in its last bytes

---
 pbat/core/pBat_Completion.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index 3f5da4d..e146fd1 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -212,6 +212,10 @@ int pBat_GetLongestCommonMatch(FILELIST* files, int min)
 
     }
 
+    /* do not cut a multi-byte character */
+    while (longest > min && (p[longest] & 0xC0) == 0x80)
+        longest --;
+
     return longest;
 }
 
-- 
2.43.0


From bf908f797ed97cdd91b897eecae1dfd58e6fdfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 149/173] fix: give the terminal its mode back after looking
 for a key

---
 libpbat/console/pBat_Console.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libpbat/console/pBat_Console.c b/libpbat/console/pBat_Console.c
index 9ea02d6..420f71e 100644
--- a/libpbat/console/pBat_Console.c
+++ b/libpbat/console/pBat_Console.c
@@ -92,15 +92,24 @@ LIBPBAT int pBat_Getch(FILE *f)
 /* Morgan McGuire, morgan@cs.brown.edu */
 int pBat_Kbhit(FILE *f)
 {
-  int bytesWaiting;
-  struct termios term;
+  int bytesWaiting = 0;
+  struct termios oldattr, term;
+  int tty = tcgetattr(fileno(f), &oldattr) == 0;
+
+  if (tty) {
+    term = oldattr;
+    term.c_lflag &= ~ICANON;
+    tcsetattr(fileno(f), TCSANOW, &term);
+  }
 
-  tcgetattr(fileno(f), &term);
-  term.c_lflag &= ~ICANON;
-  tcsetattr(fileno(f), TCSANOW, &term);
   setbuf(f, NULL);
 
-  ioctl(fileno(f), FIONREAD, &bytesWaiting);
+  if (ioctl(fileno(f), FIONREAD, &bytesWaiting) == -1)
+    bytesWaiting = 0;
+
+  if (tty)
+    tcsetattr(fileno(f), TCSANOW, &oldattr);
+
   return bytesWaiting;
 }
 
-- 
2.43.0


From ca50568e1bdcb848a67382dca84624c56f591844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 150/173] fix: keep the background when a color code is a
 single digit

---
 pbat/command/pBat_Color.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Color.c b/pbat/command/pBat_Color.c
index b7c469a..fcf7d56 100644
--- a/pbat/command/pBat_Color.c
+++ b/pbat/command/pBat_Color.c
@@ -69,7 +69,7 @@
 
 int pBat_GetColorCode(char* lpArg)
 {
-    int back=PBAT_GET_BACKGROUND(colColor) << 4,
+    int back=PBAT_GET_BACKGROUND(colColor),
         fore; /* back and foreground */
     int i=strlen(lpArg);
 
-- 
2.43.0


From 4ac654d50166b448a6fc516146e422807d29979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 151/173] fix: do not take the default colors of the terminal
 for black

---
 pbat/command/pBat_Color.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Color.c b/pbat/command/pBat_Color.c
index fcf7d56..b68b16e 100644
--- a/pbat/command/pBat_Color.c
+++ b/pbat/command/pBat_Color.c
@@ -166,7 +166,7 @@ int pBat_CmdColor(char* lpLine)
 		} else {
 
 			if ((code = pBat_GetColorCode(lpArg)) == -1
-                || (HWORD(code) == LWORD(code))) {
+                || (!(code & ~0xFF) && HWORD(code) == LWORD(code))) {
 
                 pBat_ShowErrorMessage(PBAT_UNEXPECTED_ELEMENT, lpArg, 0);
                 return PBAT_UNEXPECTED_ELEMENT;
-- 
2.43.0


From 8355a57b40a324f4e43b81cb0e23b781688305f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 152/173] fix: show and hide the cursor with the sequences of
 terminals

---
 libpbat/console/pBat_ConsoleANSI.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/console/pBat_ConsoleANSI.c b/libpbat/console/pBat_ConsoleANSI.c
index 1c415dd..11237ee 100644
--- a/libpbat/console/pBat_ConsoleANSI.c
+++ b/libpbat/console/pBat_ConsoleANSI.c
@@ -134,9 +134,9 @@ LIBPBAT void pBat_SetConsoleCursorState(FILE* f, int bVisible, int iSize )
         return;
 
     if (bVisible) {
-        fputs("\033[25h", f);
+        fputs("\033[?25h", f);
     } else {
-        fputs("\033[25l", f);
+        fputs("\033[?25l", f);
     }
 }
 
-- 
2.43.0


From 4ae877be2e201514c406367bfc773966ad94cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 153/173] fix: let BATBOX /k and /l set the variable they are
 given

---
 modules/batbox/batbox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/batbox/batbox.c b/modules/batbox/batbox.c
index 2447f70..8b0ae53 100644
--- a/modules/batbox/batbox.c
+++ b/modules/batbox/batbox.c
@@ -216,7 +216,7 @@ int batbox(char* cmd)
 
             type = *(param->str+1);
 
-            if ((tmp = pBat_GetNextParameterEs(cmd, param)) == NULL
+            if ((tmp = pBat_GetNextParameterEs(cmd, param)) != NULL
                 && fast_noswitch_check(param->str)) {
 
                 name = 1;
-- 
2.43.0


From ed6f0372b24938f91c62ae3bc84b945e38e7df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 154/173] fix: leave the blanks before the text out of the
 TITLE

---
 pbat/command/pBat_Title.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Title.c b/pbat/command/pBat_Title.c
index 84a5c20..5c2464f 100644
--- a/pbat/command/pBat_Title.c
+++ b/pbat/command/pBat_Title.c
@@ -59,7 +59,7 @@ int pBat_CmdTitle(char* lpLine)
 
 		} else {
 
-			pBat_GetEndOfLine(lpLine, lpEsTitle);
+			pBat_GetEndOfLine(pBat_SkipBlanks(lpLine), lpEsTitle);
 			pBat_SetConsoleTitle(fOutput, lpEsTitle->str);
 
 		}
-- 
2.43.0


From 63771b89ded8436bcb92fdc77abad69e9e7ca584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 155/173] fix: let BATBOX /k_ see the keys typed ahead

---
 modules/batbox/batbox.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/batbox/batbox.c b/modules/batbox/batbox.c
index 8b0ae53..3a29a28 100644
--- a/modules/batbox/batbox.c
+++ b/modules/batbox/batbox.c
@@ -63,6 +63,9 @@ void pBat_ModuleAttach(void)
         && (tty = fopen(TTY_PATH, TTY_MODE)) == NULL )
         pBat_ShowErrorMessage(PBAT_FILE_ERROR, TTY_PATH, -1);
 
+    /* keys waiting in a buffer would be missed when looking for a key */
+    setvbuf(tty, NULL, _IONBF, 0);
+
     pBat_RegisterCommand("BATBOX", batbox);
 }
 
-- 
2.43.0


From c1c94eb6f6ac6b74caa340a498a33d5e473f6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 156/173] fix: do not crash when BATBOX moves the cursor or
 awaits a click

---
 libpbat/console/pBat_ConsoleANSI.c | 3 ++-
 modules/batbox/batbox.c            | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libpbat/console/pBat_ConsoleANSI.c b/libpbat/console/pBat_ConsoleANSI.c
index 11237ee..5e6e48e 100644
--- a/libpbat/console/pBat_ConsoleANSI.c
+++ b/libpbat/console/pBat_ConsoleANSI.c
@@ -176,7 +176,8 @@ LIBPBAT void pBat_SetConsoleCursorState(FILE* f, int bVisible, int iSize )
 
 #ifndef LIBPBAT_W10_ANSI
 
-static __thread int latest;
+/* not in thread storage, as it is used from modules */
+static int latest;
 
 static int tomouse_b(int b)
 {
diff --git a/modules/batbox/batbox.c b/modules/batbox/batbox.c
index 3a29a28..bd7b8e7 100644
--- a/modules/batbox/batbox.c
+++ b/modules/batbox/batbox.c
@@ -138,7 +138,9 @@ int batbox(char* cmd)
 {
     ESTR* param = pBat_EsInit();
     int status = 0;
-    static __thread CONSOLECOORD orig = {0, 0}, last = {0,0};
+    /* no thread storage: a module can have none when the program that loads
+       it is linked statically, which is the default */
+    static CONSOLECOORD orig = {0, 0}, last = {0,0};
     cmd += 6;
 
     /* loop through arguments */
-- 
2.43.0


From 09f0277c1d81661d47f46291861bfc8a1aae80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 157/173] fix: do not leave the prompt of MORE behind on Q and
 F

---
 pbat/command/pBat_More.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 54ed179..3b16931 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -521,12 +521,13 @@ static int pBat_MorePrompt(FILE* in, int* toprint, int* skip, int* ok)
 
             case 'q':
             case 'Q':
+                pBat_ClearConsoleLine(fOutput);
                 return 1;
 
             case 'f':
             case 'F':
                 *ok = 0;
-                return 0;
+                goto end;
 
             case 'S':
             case 's':
-- 
2.43.0


From 6df88604b47bc16bd30dfa155df379cb31e697be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 158/173] fix: let Q leave MORE whatever files remain

---
 pbat/command/pBat_More.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 3b16931..6f0078c 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -41,6 +41,9 @@
 
 #include "../../config.h"
 
+/* what pBat_MoreFile() returns when the user quits */
+#define MORE_QUIT -1
+
 static int pBat_MoreWriteLine(int* begin, int* blank, int flags, int tabsize, FILE* file);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
@@ -228,6 +231,9 @@ int pBat_CmdMore(char* line)
 
         }
 
+        if (status == MORE_QUIT)
+            status = PBAT_NO_ERROR;
+
     }
 
 end:
@@ -296,9 +302,14 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
                 ok = pBat_MoreWriteLine(&begin, &blank, flags, tabsize, file);
 
 
-            if (pBat_MorePrompt(in, &toprint, &begin, &ok))
+            if (pBat_MorePrompt(in, &toprint, &begin, &ok)) {
+
+                /* the user does not want the other files either */
+                status = MORE_QUIT;
                 goto end;
 
+            }
+
         }
 
      }
-- 
2.43.0


From f9524cb2ee0976d625ac20bf5a668ed462fa810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 159/173] fix: do not lose the input that follows a PAUSE or a
 line of commands

---
 pbat/command/pBat_Pause.c | 3 +++
 pbat/core/pBat_Read.c     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pbat/command/pBat_Pause.c b/pbat/command/pBat_Pause.c
index 8d56767..7a62efb 100644
--- a/pbat/command/pBat_Pause.c
+++ b/pbat/command/pBat_Pause.c
@@ -53,6 +53,9 @@ int pBat_CmdPause(char* lpLine)
 
 	fputs(lpMsgPause, fOutput);
 	fputs(PBAT_NL, fOutput);
+
+	/* do not read past the key, what follows is for the next command */
+	setvbuf(fInput, NULL, _IONBF, 0);
 	pBat_Getch(fInput);
 
 	return 0;
diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index c079d9d..31871ff 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -164,7 +164,11 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
         /* If fInput is a tty, use Linenoise ! */
         if (isatty(fileno(pFile)))
             fn_getline = pBat_LineNoise;
+        else
 #endif
+            /* Do not read past the line, as the commands read what follows
+               it without a buffer (see SET /P) */
+            setvbuf(pFile, NULL, _IONBF, 0);
 
 	} else if (!(pFile=fopen(pIn->lpFileName, "r"))) {
 
-- 
2.43.0


From cecd809a980ecb5be7b6b97b5ba02e52fcf6f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 160/173] fix: let S in MORE skip all of its lines before the
 next page

---
 pbat/command/pBat_More.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 6f0078c..a672d73 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -282,13 +282,13 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
 
      } else {
 
-        /* skip lines at beginning */
-        while (begin && pBat_MoreWriteLine(&begin, &blank, flags, tabsize, file))
-            toprint = 23;
-
         /* run interractive */
         while (ok) {
 
+            /* skip lines, these do not count in the page */
+            while (begin && ok)
+                ok = pBat_MoreWriteLine(&begin, &blank, flags, tabsize, file);
+
             if (flags & PBAT_MORE_CLEAR) {
 
                 pBat_ClearConsoleScreen(fOutput);
-- 
2.43.0


From 56d2342a30a4848dde2c632b89ca3eac5508ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:02 +0000
Subject: [PATCH 161/173] fix: compare integers that do not fit in a long by
 their value in IF

---
 pbat/command/pBat_If.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index dc2f5a3..c9a4d8c 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -19,6 +19,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
@@ -475,9 +476,16 @@ int pBat_GetCmpValue(const char* number, double* value)
 
     while (1) {
 
-        if (f == 0)
+        if (f == 0) {
+
+            errno = 0;
             *value = (double)strtol(number, &end, 0);
-        else /* Double mode chosen */
+
+            /* integers which are too big are read as doubles */
+            if (errno == ERANGE)
+                end = (char*)number;
+
+        } else /* Double mode chosen */
             *value = strtod(number, &end);
 
         /* a string without any digit is not a number */
-- 
2.43.0


From 4ef6ccf400b4485b8717fb0d5c4938db141e6bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:57 +0000
Subject: [PATCH 162/173] fix: do not crash in MOD when %PBAT_PATH% is not
 defined

---
 pbat/command/pBat_Mod.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Mod.c b/pbat/command/pBat_Mod.c
index 79e0117..7ba3226 100644
--- a/pbat/command/pBat_Mod.c
+++ b/pbat/command/pBat_Mod.c
@@ -322,8 +322,10 @@ int pBat_CmdMod(char* line)
                    to something in %PBAT_PATH%/modules */
 
                 ESTR* tmp = pBat_EsInit_Cached();
+                char* dir = pBat_GetEnv(lpeEnv, "PBAT_PATH");
 
-                pBat_MakePath(tmp, 3, pBat_GetEnv(lpeEnv, "PBAT_PATH"), "modules", param->str);
+                /* the variable may have been deleted */
+                pBat_MakePath(tmp, 3, dir ? dir : "", "modules", param->str);
 
                 pBat_EsFree_Cached(param);
                 param = tmp;
-- 
2.43.0


From eefc84dcdc0eb7587db93a35c22ca18a4f359b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:12 +0000
Subject: [PATCH 163/173] fix: end the parts of paths longer than FILENAME_MAX

---
 pbat/core/pBat_SplitPath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_SplitPath.c b/pbat/core/pBat_SplitPath.c
index 4a8821b..8bbe457 100644
--- a/pbat/core/pBat_SplitPath.c
+++ b/pbat/core/pBat_SplitPath.c
@@ -57,7 +57,7 @@ void pBat_SplitPath(char* lpPath,
 		PBAT_DBG("found path=\"%s\"\n", lpToken);
 
 		if (lpDir)
-			strncpy(lpDir, lpToken, _MAX_DIR);
+			snprintf(lpDir, _MAX_DIR, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken;
@@ -78,7 +78,7 @@ void pBat_SplitPath(char* lpPath,
 
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken+1;
@@ -91,7 +91,7 @@ void pBat_SplitPath(char* lpPath,
 	} else {
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		if (lpExt)
 			*lpExt='\0';
-- 
2.43.0


From 99607d8c360b0fcaeeca26426d93d7660e3e38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:39 +0000
Subject: [PATCH 164/173] fix: separate the centiseconds of %TIME% from the
 seconds

---
 pbat/core/pBat_Var.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 1973f5a..45bb057 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -116,7 +116,7 @@ void pBat_GetTimeBasedVar(char type, char* buf, size_t size)
 #ifdef WIN32
         snprintf(buf, size, ",%d", st.wMilliseconds / 10);
 #else
-        snprintf(buf, size, "%d", 0);
+        snprintf(buf, size, ",00");
 #endif // WIN32
     }
 }
-- 
2.43.0


From 435d0f17d2456f95851f74cf7ec2595399923fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:39 +0000
Subject: [PATCH 165/173] fix: run the startup scripts under the names that the
 manual gives them

---
 scripts/pBat_Auto.bat | 4 ++--
 scripts/pBat_Auto.in  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/pBat_Auto.bat b/scripts/pBat_Auto.bat
index d6376bf..8d56a64 100644
--- a/scripts/pBat_Auto.bat
+++ b/scripts/pBat_Auto.bat
@@ -51,8 +51,8 @@ IF %PBAT_OS%==WINDOWS (
 DEF /f help=hlp.bat $*
 SET PROMPT=$x.a;Picobat$x..; $P$G
 
-IF exist !PBAT_ETC!/PBAT_Auto.bat CALL !PBAT_ETC!/PBAT_Auto.bat
-IF exist !USERPROFILE!/.PBAT/PBAT_Auto.bat CALL !USERPROFILE!/.PBAT/PBAT_Auto.bat
+IF exist !PBAT_ETC!/pBat_Auto.bat CALL !PBAT_ETC!/pBat_Auto.bat
+IF exist !USERPROFILE!/.pbat/pBat_Auto.bat CALL !USERPROFILE!/.pbat/pBat_Auto.bat
 
 IF %PBAT_IS_SCRIPT%==false (
 PECHO $x9E; _____ _           ____        _     Picobat [%PBAT_VERSION%]                         
diff --git a/scripts/pBat_Auto.in b/scripts/pBat_Auto.in
index b91c0fa..6bad8d5 100644
--- a/scripts/pBat_Auto.in
+++ b/scripts/pBat_Auto.in
@@ -51,8 +51,8 @@ IF %PBAT_OS%==WINDOWS (
 DEF /f help=hlp.bat $*
 SET PROMPT=$x.a;Picobat$x..; $P$G
 
-IF exist !PBAT_ETC!/PBAT_Auto.bat CALL !PBAT_ETC!/PBAT_Auto.bat
-IF exist !USERPROFILE!/.PBAT/PBAT_Auto.bat CALL !USERPROFILE!/.PBAT/PBAT_Auto.bat
+IF exist !PBAT_ETC!/pBat_Auto.bat CALL !PBAT_ETC!/pBat_Auto.bat
+IF exist !USERPROFILE!/.pbat/pBat_Auto.bat CALL !USERPROFILE!/.pbat/pBat_Auto.bat
 
 IF %PBAT_IS_SCRIPT%==false (
 PECHO $x9E; _____ _           ____        _     Picobat [%PBAT_VERSION%]                         
-- 
2.43.0


From af6c9ea6436a73401fccfbc102a1fcc3be19b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 166/173] fix: map lists of two or three commands

---
 libpbat/cmdlist/pBat_CmdList.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index eacdcd5..0a2caa4 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -187,14 +187,12 @@ int _pBat_PutSeed(LPCOMMANDINFO lpciCommandInfo, int iSegBottom,
 
 LIBPBAT LPCOMMANDLIST pBat_MapCommandInfo(LPCOMMANDINFO lpciCommandInfo, int i)
 {
-    int Mid=i/2-1;
     LPCOMMANDLIST lpclList=NULL;
 
     /* Fist sort the function By alphabetical order */
     qsort(lpciCommandInfo, i, sizeof(COMMANDINFO), _pBat_Sort);
 
-    if (Mid)
-        _pBat_PutSeed(lpciCommandInfo, 0, i+1, &lpclList);
+    _pBat_PutSeed(lpciCommandInfo, 0, i+1, &lpclList);
 
     return lpclList;
 }
-- 
2.43.0


From 0a356ea579835deebb238f5a54178ec05b00abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 167/173] fix: replace the procedure of a command that is no
 alias

---
 libpbat/cmdlist/pBat_CmdList.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 0a2caa4..a92014b 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -276,14 +276,19 @@ LIBPBAT int				pBat_ReplaceCommand(LPCOMMANDINFO lpciCommand, LPCOMMANDLIST lpcl
 				if (!lpBuf)
 					return -1;
 
-				if (lpclCommandList->cfFlag & PBAT_DEF_FLAG)
-					free(lpclCommandList->lpCommandProc);
-
 				strcpy(lpBuf, lpciCommand->lpCommandProc);
-				lpclCommandList->lpCommandProc=lpBuf;
+
+			} else {
+
+				lpBuf=lpciCommand->lpCommandProc;
 
 			}
 
+			if (lpclCommandList->cfFlag & PBAT_DEF_FLAG)
+				free(lpclCommandList->lpCommandProc);
+
+			lpclCommandList->lpCommandProc=lpBuf;
+
 			lpclCommandList->cfFlag=lpciCommand->cfFlag;
 
 			return 0;
-- 
2.43.0


From e9ce52f93df758e0e8d1107428e651ef2172c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 168/173] fix: join what libcu8_convert kept with the right
 count of new bytes

---
 libcu8/src/encoding.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libcu8/src/encoding.c b/libcu8/src/encoding.c
index 39cfcaa..3c5f750 100644
--- a/libcu8/src/encoding.c
+++ b/libcu8/src/encoding.c
@@ -259,13 +259,12 @@ __LIBCU8__IMP __cdecl char* libcu8_convert(int mode, const char* src,
         /* if we have trailing unconverted characters from a previous
            conversion, allocate a new buffer that can hold the full buffer */
 
-        size += *rcount;
-
-        if ((tmp = malloc (size)) == NULL)
+        if ((tmp = malloc (size + *rcount)) == NULL)
             return NULL;
 
         memcpy(tmp, remainder, *rcount);
         memcpy(tmp + *rcount, src, size);
+        size += *rcount;
         *rcount = 0;
 
         src = tmp;
@@ -350,6 +349,8 @@ next:
         iconv_close(context);
         if (ret)
             free(ret);
+        if (tmp)
+            free(tmp);
         return NULL;
 
     }
@@ -358,6 +359,9 @@ next:
 
     iconv_close(context);
 
+    if (tmp)
+        free(tmp);
+
     return ret;
 
 }
-- 
2.43.0


From 08c58dfcc0d1b13cbc62deece7200eba5c6a22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 169/173] fix: return NULL from libcu8_fopen when the file
 cannot be opened

---
 libcu8/src/fdio.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libcu8/src/fdio.c b/libcu8/src/fdio.c
index 174a446..ee87548 100644
--- a/libcu8/src/fdio.c
+++ b/libcu8/src/fdio.c
@@ -66,9 +66,8 @@ __LIBCU8__IMP __cdecl FILE* libcu8_fopen(const char* __restrict__ name, const ch
 
     ret = _wfopen(wfile, wmode);
 
-    fd = fileno(ret);
-
-    if (fd != -1) {
+    if (ret != NULL
+        && (fd = fileno(ret)) != -1) {
 
         /* empty buffering structure */
         libcu8_fd_buffers[fd].rcount = 0;
-- 
2.43.0


From 439010105d1f6a372ea8a3bf56d61f6f2392cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 170/173] fix: return the bytes libcu8_fgets kept when the end
 of file follows them

---
 libcu8/src/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index 05a5262..7d08d94 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -111,7 +111,7 @@ __LIBCU8__IMP __cdecl char* libcu8_fgets(char* buf, int s, FILE* f)
 
     /* Add the null terminator */
     if (written <= sz
-        && written != 0)
+        && (written != 0 || buf != orig))
         *(buf + written) = '\0';
     else
         return NULL;
-- 
2.43.0


From 4bb0801e6a9615585f3c4c2d92fd5b3500b30f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:31 +0000
Subject: [PATCH 171/173] fix: print more than 511 bytes in libcu8_fprintf

---
 libcu8/src/write.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libcu8/src/write.c b/libcu8/src/write.c
index 02b8993..8cca1c1 100644
--- a/libcu8/src/write.c
+++ b/libcu8/src/write.c
@@ -55,12 +55,13 @@ __LIBCU8__IMP __cdecl int libcu8_fprintf(FILE* f, const char* fmt, ...)
 __LIBCU8__IMP __cdecl int libcu8_vfprintf(FILE* f, const char* fmt, va_list args)
 {
     char int_buf[512], *out = int_buf;
-    int sz=sizeof(int_buf), nd, ret;
+    int sz=sizeof(int_buf), nd, ret = EOF;
     va_list cpy;
 
     va_copy(cpy, args); /* create a duplicate just in case */
 
-    nd = _vsnprintf(out, sz, fmt, args);
+    /* _vsnprintf() does not tell how long what it truncates is */
+    nd = vsnprintf(out, sz, fmt, args);
 
     if (nd < 0)
         goto err;
@@ -71,7 +72,7 @@ __LIBCU8__IMP __cdecl int libcu8_vfprintf(FILE* f, const char* fmt, va_list args
         if ((out = malloc(sz)) == NULL)
             goto err;
 
-        nd = _vsnprintf(out, sz, fmt, cpy);
+        nd = vsnprintf(out, sz, fmt, cpy);
     }
 
     ret = libcu8_fputs(out, f);
-- 
2.43.0


From ca4254d7a95c4164b744e7cdb0f7b0c0a52e5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:59 +0000
Subject: [PATCH 172/173] fix: flush the pending output before running external
 programs on Windows

---
 pbat/core/pBat_Exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index ee3e060..1fb67f7 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -140,6 +140,10 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
     PBAT_RUNFILE_LOCK();
 
+    /* what is still buffered comes before the output of the program */
+    fflush(fOutput);
+    fflush(fError);
+
     pBat_SetAllFdInheritance(0);
 
     if (!(info->flags & PBAT_EXEC_SEPARATE_WINDOW)) {
@@ -231,6 +235,10 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
     PBAT_RUNFILE_LOCK();
 
+    /* what is still buffered comes before the output of the program */
+    fflush(fOutput);
+    fflush(fError);
+
     pBat_SetAllFdInheritance(0);
 
     if (!(info->flags & PBAT_EXEC_SEPARATE_WINDOW)) {
-- 
2.43.0


From 9e331079eb01c8a2e0b7d48069fd5e8a2f9f53ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:04 +0000
Subject: [PATCH 173/173] fix: append the output of programs to files on
 Windows

---
 pbat/core/pBat_Stream.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..3ae02e5 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -111,15 +111,20 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
         pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
                                 name, 0);
         free(item);
-        item = stack;
+        item = stack;
         goto error;
-
-    }
-
-    item->lock = 0;
-    item->fd = fd;
-    item->subst = PBAT_GET_SUBST();
-
+
+    }
+
+    /* On Windows, the programs that inherit the file are given its position
+       and know nothing about O_APPEND */
+    if (fmode & O_APPEND)
+        lseek(newfd, 0, SEEK_END);
+
+    item->lock = 0;
+    item->fd = fd;
+    item->subst = PBAT_GET_SUBST();
+
     /* do not forget to update the standard thread specific streams */
     switch (fd) {
 
-- 
2.43.0

