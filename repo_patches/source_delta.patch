From 40b0f323e3d92ff03ecfa376ff13825d230cc7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 01/28] fix: report a file write as successful only after the
 data was flushed and the file closed

---
 CppLisp/CppLispInterpreter/Environment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..2eb6307 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -116,6 +116,7 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 {
 	std::ofstream ofs(fileName);
 	ofs << content;
+	ofs.close();	// a write error may show up not before the data is flushed
 	return ofs.good();
 }
 
-- 
2.43.0


From 98ab5f678b9bca27e11a7145f67ccaf2c670ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 02/28] fix: a file that can not be read is a script error, not
 a crash or an empty text

---
 CppLisp/CppLispInterpreter/Environment.cpp | 21 +++++++++++++++++++--
 CppLisp/CppLispInterpreter/fuel.cpp        | 22 ++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2eb6307..9077737 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -37,6 +37,7 @@
 #include <ctime>
 
 #include <cmath>
+#include <cerrno>
 
 using namespace CppLisp;
 
@@ -107,9 +108,25 @@ static bool File_Exists(const string & fileName)
 
 std::string ReadFileOrEmptyString(const std::string & fileName)
 {
+	errno = 0;
 	std::ifstream ifs(fileName);
-	std::string content = std::string((std::istreambuf_iterator<char>(ifs)), (std::istreambuf_iterator<char>()));
-	return std::string(content);
+	if (!ifs.is_open())
+	{
+		// only a missing file is an empty string, a file which can not be opened is an error
+		if (errno == 0 || errno == ENOENT || errno == ENOTDIR)
+		{
+			return std::string();
+		}
+		throw LispException("Can not open file " + fileName, 0);
+	}
+	try
+	{
+		return std::string((std::istreambuf_iterator<char>(ifs)), (std::istreambuf_iterator<char>()));
+	}
+	catch (const std::ios_base::failure &)
+	{
+		throw LispException("Can not read file " + fileName, 0);
+	}
 }
 
 bool WriteTextFile(const std::string & fileName, const std::string & content)
diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..96064da 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -296,7 +296,15 @@ namespace CppLisp
 				// process -e option if script is given via command line
 				if (string::IsNullOrEmpty(script))
 				{
-					script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
+					try
+					{
+						script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
+					}
+					catch (const LispExceptionBase & exc)
+					{
+						output->WriteLine("Error: " + exc.Message);
+						return;
+					}
 				}
 				else
 				{
@@ -315,7 +323,17 @@ namespace CppLisp
 		{
 			for (var fileName : scriptFiles)
 			{
-				script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
+				try
+				{
+					script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
+				}
+				catch (const LispExceptionBase & exc)
+				{
+					// report the error and go on with the next script
+					output->WriteLine("Error: " + exc.Message);
+					result = LispVariant::CreateErrorValue(exc.Message);
+					continue;
+				}
 				//ILispCompiler compiler = TryGetCompiler();
 				//if (compile && compiler != null)
 				//{
-- 
2.43.0


From d2932a49f77c0a9dcc7c08d0f859f1833c295b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 03/28] fix: the safe evaluation reports every error, also
 native exceptions and errors inside of functions

---
 CppLisp/CppLispInterpreter/Environment.cpp |  6 ++---
 CppLisp/CppLispInterpreter/Interpreter.cpp |  2 +-
 CppLisp/CppLispInterpreter/Lisp.cpp        | 26 +++++++++++++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 9077737..9f77171 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1867,10 +1867,10 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		{
 			ret = LispInterpreter:: EvalAst(args[1], childScope);
 		}
-		catch (LispStopDebuggerException & exc)
+		catch (LispStopDebuggerException &)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1887,7 +1887,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			throw;	// do not slice the exception, the position of the error is needed by the caller
 		}
 		localScope->PopNextScope();
 		return ret;
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..ff0310f 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -57,7 +57,7 @@ namespace CppLisp
 					const LispFunctionWrapper & firstElem = first->ToLispVariantRef().FunctionValue();
 					valIsSpecialForm = firstElem.IsSpecialForm();
 				}
-				catch (LispExceptionBase exc)
+				catch (const LispExceptionBase &)
 				{
 					if (!compile)
 					{
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..5c84b1a 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -140,15 +140,29 @@ namespace CppLisp
 		return result;
 	}
 
+	static std::shared_ptr<LispVariant> ReportError(const string & message, std::shared_ptr<TextWriter> outp)
+	{
+		string errMsg = "\nError executing script.\n\n" + message;
+		std::cout << errMsg << std::endl;
+		if (outp != null)
+		{
+			outp->WriteLine(errMsg);
+		}
+		return LispVariant::CreateErrorValue(message);
+	}
+
 	std::shared_ptr<LispVariant> Lisp::SaveEval(const string & lispCode, const string & moduleName, bool verboseErrorOutput, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp, bool onlyMacroExpand)
 	{
 		std::shared_ptr<LispVariant> result;
 		try
+		{
+		try
 		{
 			result = Eval(lispCode, /*scope:*/ null, /*moduleName :*/ moduleName, /*tracing :*/ tracing, outp, inp, onlyMacroExpand);
 		}
-		catch (LispException exc)
+		catch (const LispException & excRef)
 		{
+			LispException exc(excRef);
 			/*Console.WriteLine*/ //std::cout << string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data[LispUtils.LineNo], exc.Data[LispUtils.StartPos], exc.Data[LispUtils.StopPos], exc.Data[LispUtils.ModuleName]) << std::endl;
 			string errMsg = string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data["LineNo"]->ToString(), exc.Data["StartPos"]->ToString(), exc.Data["StopPos"]->ToString(), exc.Data["ModuleName"]->ToString());
 			std::cout << errMsg << std::endl;
@@ -177,9 +191,15 @@ namespace CppLisp
 			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
-		catch (LispExceptionBase exc)
+		catch (const LispExceptionBase & exc)
 		{
-			result = LispVariant::CreateErrorValue(exc.Message);
+			result = ReportError(exc.Message, outp);
+		}
+		}
+		catch (const std::exception & exc)
+		{
+			// no native exception (i. e. out of memory) may leave the safe evaluation, even if it is thrown while an error is reported
+			result = ReportError(string("Native exception: ") + exc.what(), outp);
 		}
 		return result;
 	}
-- 
2.43.0


From 21353e08254aae86eadd313d8c864800953242dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 04/28] fix: restore modes, call stack and output of a scope
 also when a nested evaluation fails

---
 CppLisp/CppLispInterpreter/Environment.cpp | 88 ++++++++++++++++------
 CppLisp/CppLispInterpreter/Lisp.cpp        |  1 +
 2 files changed, 68 insertions(+), 21 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 9f77171..c38bdb3 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -100,6 +100,52 @@ namespace CppLisp
 	string LispUtils_LibraryPath = string::Empty;
 }
 
+// restores the original value at the end of a block, also if the block is left with an exception
+template <class T>
+class ValueRestorer
+{
+public:
+	explicit ValueRestorer(T & value)
+		: m_Value(value), m_Original(value)
+	{
+	}
+	~ValueRestorer()
+	{
+		std::swap(m_Value, m_Original);
+	}
+
+private:
+	ValueRestorer(const ValueRestorer &);
+	ValueRestorer & operator=(const ValueRestorer &);
+
+	T & m_Value;
+	T	m_Original;
+};
+
+// pushes a scope to the call stack and removes it at the end of a block, also if the block is left with an exception
+class ScopeStackItem
+{
+public:
+	ScopeStackItem(std::shared_ptr<LispScope> scope, std::shared_ptr<LispScope> nextScope)
+		: m_Scope(scope), m_OriginalNext(scope->Next)
+	{
+		m_Scope->PushNextScope(nextScope);
+	}
+	~ScopeStackItem()
+	{
+		m_Scope->PopNextScope();
+		// a scope below the top of the call stack may be used for an evaluation by the debugger
+		m_Scope->Next = m_OriginalNext;
+	}
+
+private:
+	ScopeStackItem(const ScopeStackItem &);
+	ScopeStackItem & operator=(const ScopeStackItem &);
+
+	std::shared_ptr<LispScope> m_Scope;
+	std::shared_ptr<LispScope> m_OriginalNext;
+};
+
 static bool File_Exists(const string & fileName)
 {
 	std::ifstream infile(fileName);
@@ -321,11 +367,10 @@ static std::shared_ptr<LispVariant> Help(const std::vector<std::shared_ptr<objec
 static std::shared_ptr<LispVariant> DumpDocumentation(std::shared_ptr<LispScope> scope, Action dump)
 {
 	//string text; // var text = new StringBuilder();
-	var tempOutputWriter = scope->GlobalScope->Output;
+	ValueRestorer<std::shared_ptr<TextWriter>> outputRestorer(scope->GlobalScope->Output);
 	scope->GlobalScope->Output = std::make_shared<TextWriter>(true); // StringWriter(text);
 	dump();
 	string text = scope->GlobalScope->Output->GetContent();
-	scope->GlobalScope->Output = tempOutputWriter;
 	return std::make_shared<LispVariant>(std::make_shared<object>(text));
 }
 
@@ -605,14 +650,12 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 		if (!string::IsNullOrEmpty(code))
 		{
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
-			scope->PushNextScope(importScope);
+			ScopeStackItem stackItem(scope, importScope);
 
 			result = Lisp::Eval(code, importScope, fileName);
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
-
-			scope->PopNextScope();
 		}
 	}
 	return result;
@@ -1290,11 +1333,9 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 {
 	CheckArgs("rval", 1, args, scope);
 
-	var originalLValue = scope->NeedsLValue;
+	ValueRestorer<bool> lValueRestorer(scope->NeedsLValue);
 	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalLValue;
-	return value;
+	return EvalArgIfNeeded(args[0], scope);
 }
 
 static std::shared_ptr<LispVariant> SymbolFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1391,12 +1432,13 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	CheckArgs("evalstr", 1, args, scope);
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
-	var tempModuleName = scope->ModuleName;
+	string code = variant.StringValue();
+	ValueRestorer<string> moduleNameRestorer(scope->ModuleName);
+	ValueRestorer<bool> inEvalRestorer(scope->IsInEval);
+	ValueRestorer<bool> tracingRestorer(scope->Tracing);
+	ValueRestorer<IEnumerable<std::shared_ptr<LispToken>>> tokensRestorer(scope->Tokens);
 	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
-	scope->IsInEval = false;
-	scope->ModuleName = tempModuleName;
-	return result;
+	return Lisp::Eval(code, scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + code);
 }
 
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1538,10 +1580,12 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 {
 	CheckArgs(Setf, 2, args, scope);
 
-	var originalNeedsLValue = scope->NeedsLValue;
-	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalNeedsLValue;
+	std::shared_ptr<LispVariant> symbol;
+	{
+		ValueRestorer<bool> lValueRestorer(scope->NeedsLValue);
+		scope->NeedsLValue = true;
+		symbol = EvalArgIfNeeded(args[0], scope);
+	}
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
 	var value = LispInterpreter::EvalAst(args[1], scope);
 	if (symbol->IsLValue())
@@ -1808,7 +1852,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		[name, moduleName, args, scope](const std::vector<std::shared_ptr<object>> & localArgs, std::shared_ptr<LispScope> localScope) -> std::shared_ptr<LispVariant>
 	{
 		var childScope = std::make_shared<LispScope>(name, localScope->GlobalScope, std::make_shared<string>(moduleName), scope->Output, scope->Input);
-		localScope->PushNextScope(childScope);
+		ScopeStackItem stackItem(localScope, childScope);
 
 		// add formal arguments to current scope
 		var i = 0;
@@ -1889,7 +1933,6 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 
 			throw;	// do not slice the exception, the position of the error is needed by the caller
 		}
-		localScope->PopNextScope();
 		return ret;
 	};
 
@@ -1972,6 +2015,10 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 {
 	CheckArgs(name, 3, args, scope);
 
+	// the name and the documentation must not be visible for other functions
+	ValueRestorer<std::shared_ptr<object>> userDataRestorer(scope->UserData);
+	ValueRestorer<std::shared_ptr<Tuple<string, string>>> userDocRestorer(scope->UserDoc);
+
 	UpdateDocumentationInformationAtScope(args, scope);
 
 	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
@@ -1981,7 +2028,6 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	tempArgs.push_back(args[1]);
 	tempArgs.push_back(args[2]);
 	var resultingFcn = fn.Function(tempArgs, scope);
-	scope->UserData = null;
 
 	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 5c84b1a..591d9a0 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -117,6 +117,7 @@ namespace CppLisp
 		var currentScope = scope == null ? LispEnvironment::CreateDefaultScope() : scope;
 		currentScope->ModuleName = moduleName;
 		currentScope->Tracing = tracing;
+		currentScope->IsInReturn = false;	// a return of a previous evaluation at this scope is finished
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
 		RegisterNativeObjects(/*nativeItems,*/ *currentScope);
-- 
2.43.0


From 2eb51f401ac24b06a2f781eee0ca7ca27bfbb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 05/28] fix: wrong arguments, missing values and unbalanced
 code are script errors and do not crash the process

---
 CppLisp/CppLispDebugger/Debugger.cpp       |   3 +-
 CppLisp/CppLispInterpreter/Environment.cpp | 131 ++++++++++++++-------
 CppLisp/CppLispInterpreter/Interpreter.cpp |  20 +++-
 CppLisp/CppLispInterpreter/Interpreter.h   |   6 +
 CppLisp/CppLispInterpreter/Lisp.cpp        |   5 +
 CppLisp/CppLispInterpreter/Parser.cpp      |   9 ++
 CppLisp/CppLispInterpreter/Variant.cpp     |  18 ++-
 CppLisp/CppLispInterpreter/csobject.cpp    |   8 ++
 CppLisp/CppLispInterpreter/cstypes.h       |   2 +-
 9 files changed, 152 insertions(+), 50 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..d4cbde7 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -26,6 +26,7 @@
 #include "Debugger.h"
 #include "Lisp.h"
 #include "Exception.h"
+#include "Interpreter.h"
 
 #include "cstypes.h"
 #include "csstring.h"
@@ -242,7 +243,7 @@ namespace CppLisp
 				try
 				{
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
+					debugger->Output->WriteLine("result={0}", LispInterpreter::NotNull(result)->ToString());
 					interactiveScript += cmd + "\n";
 				}
 				catch (LispExceptionBase & ex)
diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index c38bdb3..a9408bd 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -183,6 +183,12 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 	return ofs.good();
 }
 
+static string GetTraceBuffer(std::shared_ptr<LispScope> scope)
+{
+	// there is no buffer at a local scope until anything is traced
+	return scope->ContainsKey(Tracebuffer) ? (*scope)[Tracebuffer]->ToString() : string::Empty;
+}
+
 static string GetStringRepresentation(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & separator = " ")
 {
 	var text = string::Empty;
@@ -194,10 +200,9 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 		}
 		text += item->ToString();
 	}
-	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
+	if (scope->ContainsKey(Traceon) && (bool)(*((*scope)[Traceon])))
 	{
-		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
-		string temp = buffer->ToString();
+		string temp = GetTraceBuffer(scope);
 		temp += text;
 		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
@@ -231,6 +236,31 @@ static void CheckOptionalArgs(const string & name, size_t minCount, size_t maxCo
 	}
 }
 
+static Dictionary<LispVariant, std::shared_ptr<object>> & CheckForDictionary(const string & name, std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
+{
+	const LispVariant & value = arg->ToLispVariantRef();
+	if (!value.IsNativeObject() || value.Value == null || !value.Value->IsDictionary())
+	{
+		throw LispException("No dictionary in " + name, scope.get());
+	}
+	return value.Value->ToDictionary();
+}
+
+// the value of an undefined or nil variant may be missing, but containers need an object for every item
+static std::shared_ptr<object> GetDictValue(const std::shared_ptr<LispVariant> & variant)
+{
+	return variant->Value != null ? variant->Value : std::make_shared<object>();
+}
+
+static size_t CheckIndex(const string & name, int index, size_t count, std::shared_ptr<LispScope> scope)
+{
+	if (index < 0 || (size_t)index >= count)
+	{
+		throw LispException(string::Format("Index out of range in {0}, index={1} count={2}", name, std::to_string(index), std::to_string(count)), scope.get());
+	}
+	return (size_t)index;
+}
+
 template <class T1>
 static std::shared_ptr<LispVariant> FuelFuncWrapper0(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & func_name, std::function<T1()> func)
 {
@@ -308,7 +338,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::NotNull(LispInterpreter::EvalAst(arg, scope)) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -320,7 +350,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::NotNull(LispInterpreter::EvalAst(args[1], scope));
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -383,7 +413,7 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
 			{
 				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
@@ -446,6 +476,8 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("trace", 1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
 	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
@@ -453,7 +485,7 @@ static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	string buffer = GetTraceBuffer(scope); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
@@ -494,8 +526,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("sleep", 1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -668,6 +702,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("return", 1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
@@ -1074,7 +1110,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		list.Add(std::make_shared<object>(*LispInterpreter::NotNull(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1095,7 +1131,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
+		var x = *LispInterpreter::NotNull(function.Function(args, scope));
 		result = std::make_shared<LispVariant>(x);
 	}
 	return result;
@@ -1162,11 +1198,11 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 		std::shared_ptr<object> listValue = args[0];
 
 		std::function<void(std::shared_ptr<object>)> action = 
-			[listValue](std::shared_ptr<object> newValue) -> void
+			[listValue, scope](std::shared_ptr<object> newValue) -> void
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-				container[0] = newValue;
+				container[CheckIndex("first", 0, container.Count(), scope)] = newValue;
 			};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1174,7 +1210,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
-		return std::make_shared<LispVariant>(elements.First());
+		return std::make_shared<LispVariant>(elements.ElementAt(CheckIndex("first", 0, elements.Count(), scope)));
 	}
 }
 
@@ -1192,11 +1228,11 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		std::shared_ptr<object> listValue = args[0];
 
 		std::function<void(std::shared_ptr<object>)> action =
-			[listValue](std::shared_ptr<object> newValue) -> void
+			[listValue, scope](std::shared_ptr<object> newValue) -> void
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-			container[container.Count()-1] = newValue;
+			container[CheckIndex("last", (int)container.Count() - 1, container.Count(), scope)] = newValue;
 		};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1204,7 +1240,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
-		return std::make_shared<LispVariant>(elements.Last());
+		return std::make_shared<LispVariant>(elements.ElementAt(CheckIndex("last", (int)elements.Count() - 1, elements.Count(), scope)));
 	}
 }
 
@@ -1225,22 +1261,22 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 {
 	CheckArgs("nth", 2, args, scope);
 
-	var index = (size_t)args[0]->ToLispVariantRef().IntValue();
+	var index = args[0]->ToLispVariantRef().IntValue();
 	const LispVariant & val = args[1]->ToLispVariantRef();
 	if (val.IsString())
 	{
-		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring(index, 1)));
+		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring((size_t)index, 1)));
 	}
 	if (scope->NeedsLValue)
 	{
 		std::shared_ptr<object> listValue = args[1];
 
 		std::function<void(std::shared_ptr<object>)> action =
-			[listValue,index](std::shared_ptr<object> newValue) -> void
+			[listValue, index, scope](std::shared_ptr<object> newValue) -> void
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-			container[index] = newValue;
+			container[CheckIndex("nth", index, container.Count(), scope)] = newValue;
 		};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1248,7 +1284,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
-		return std::make_shared<LispVariant>(elements.ElementAt(index));
+		return std::make_shared<LispVariant>(elements.ElementAt(CheckIndex("nth", index, elements.Count(), scope)));
 	}
 }
 
@@ -1264,7 +1300,7 @@ static std::shared_ptr<LispVariant> Push(const std::vector<std::shared_ptr<objec
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
 		if (pos < (int)elements.Count())
 		{
-			elements.Insert(pos, std::make_shared<object>(val));
+			elements.Insert((int)CheckIndex("push", pos, elements.Count(), scope), std::make_shared<object>(val));
 			return std::make_shared<LispVariant>(LispVariant(std::make_shared<object>(elements)));
 		}
 		return std::make_shared<LispVariant>(LispVariant(LispType::_Nil));
@@ -1286,7 +1322,7 @@ static std::shared_ptr<LispVariant> Pop(const std::vector<std::shared_ptr<object
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
 		if (pos < (int)elements.Count())
 		{
-			var elem = elements.ElementAt(pos);
+			var elem = elements.ElementAt(CheckIndex("pop", pos, elements.Count(), scope));
 			elements.RemoveAt(pos);
 			return std::make_shared<LispVariant>(LispVariant(elem));
 		}
@@ -1364,16 +1400,25 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+static const IEnumerable<std::shared_ptr<object>> & GetFunctionArgs(const string & name, std::shared_ptr<LispScope> scope)
+{
+	if (!scope->ContainsKey(ArgsMeta))
+	{
+		throw LispException(name + " is only available in a function", scope.get());
+	}
+	return (*scope)[ArgsMeta]->ToListRef();
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetFunctionArgs("argscount", scope).Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetFunctionArgs("args", scope);
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1382,7 +1427,7 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	const IEnumerable<std::shared_ptr<object>> & array = GetFunctionArgs("arg", scope);
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
@@ -1394,7 +1439,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispInterpreter::NotNull(LispInterpreter::EvalAst(args[0], scope));
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1452,10 +1497,10 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-set", 3, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
-	dict[key] = value->Value;
+	dict[key] = GetDictValue(value);
 
 	return value;
 }
@@ -1464,7 +1509,7 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-get", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-get", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
 
@@ -1475,7 +1520,7 @@ static std::shared_ptr<LispVariant> DictRemove(const std::vector<std::shared_ptr
 {
 	CheckArgs("dict-remove", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-remove", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var ok = dict.Remove(key);
 
@@ -1486,7 +1531,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 {
 	CheckArgs("dict-keys", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-keys", args[0], scope);
 	IEnumerable<std::shared_ptr<object>> result;
 	for (var elem : dict.GetKeys())
 	//foreach(var key in nativeDict.Keys)
@@ -1501,7 +1546,7 @@ static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<
 {
 	CheckArgs("dict-clean", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-clean", args[0], scope);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
@@ -1511,7 +1556,7 @@ static std::shared_ptr<LispVariant> DictContainsKey(const std::vector<std::share
 {
 	CheckArgs("dict-contains-key", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-key", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key);
 
@@ -1522,9 +1567,9 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 {
 	CheckArgs("dict-contains-value", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-value", args[0], scope);
 	var value = args[1]->ToLispVariant();
-	var result = dict.ContainsValue(value->Value);
+	var result = dict.ContainsValue(GetDictValue(value));
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
 }
@@ -1534,7 +1579,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispInterpreter::NotNull(LispInterpreter::EvalAst(arg, scope))->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1587,7 +1632,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 		symbol = EvalArgIfNeeded(args[0], scope);
 	}
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::NotNull(LispInterpreter::EvalAst(args[1], scope));
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1656,7 +1701,7 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 			if (value.IsList())
 			{
 				std::shared_ptr<object> pObj = std::make_shared<object>(value.ListValueRef());
-				return LispInterpreter::EvalAst(pObj, scope)->Value;
+				return LispInterpreter::NotNull(LispInterpreter::EvalAst(pObj, scope))->Value;
 			}
 			else
 			{
@@ -1721,7 +1766,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispInterpreter::NotNull(LispInterpreter::EvalAst(item2, scope));
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1783,7 +1828,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispInterpreter::NotNull(LispInterpreter::EvalAst(args[0], scope))->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1793,7 +1838,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispInterpreter::NotNull(LispInterpreter::EvalAst(args[0], scope));
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1801,7 +1846,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispInterpreter::NotNull(LispInterpreter::EvalAst(args[0], scope));
 	}
 	return result;
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index ff0310f..ca75401 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -71,6 +71,11 @@ namespace CppLisp
 		return astWithResolvedValues;
 	}
 
+	std::shared_ptr<LispVariant> LispInterpreter::NotNull(std::shared_ptr<LispVariant> value)
+	{
+		return value != null ? value : std::make_shared<LispVariant>(LispType::_Nil);
+	}
+
 	std::shared_ptr<LispVariant> LispInterpreter::EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
 	{
 		if (ast.get() == null)
@@ -175,7 +180,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*NotNull(EvalAst(arrAstWithResolvedValues[i], scope))) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
@@ -285,8 +290,13 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
-				return std::make_shared<object>(*processedAst);
+				var processedAst = NotNull(EvalAst(astWithReplacedArguments, globalScope))->Value;
+				if (processedAst == null)
+				{
+					// a macro without any value
+					return std::make_shared<object>(LispVariant(LispType::_Nil));
+				}
+				return std::make_shared<object>(*ConvertLispVariantListToListIfNeeded(processedAst));
 			}
 		}
 
@@ -377,6 +387,10 @@ namespace CppLisp
 		for (var formalArgument : *formalArguments)
 		{
 			std::shared_ptr<object> value;
+			if (i >= (int)astAsList->Count())
+			{
+				throw LispException("Bad argument count in macro " + astAsList->First()->ToString(), scope.get());
+			}
 			auto elem = (*astAsList)[i];
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 07bfaca..8326567 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -73,6 +73,12 @@ namespace CppLisp
         /// <exception cref="System.Exception">Unexpected macro modus!</exception>
 		/*public*/ static std::shared_ptr<LispVariant> EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
 
+		/// <summary>
+		/// An evaluation may have no value (i. e. if without else code), returns nil in this case.
+		/// Needed for all places which have to process the value.
+		/// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> NotNull(std::shared_ptr<LispVariant> value);
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 		/*public*/ static std::shared_ptr<object> ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope);
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 591d9a0..03a28ee 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -160,6 +160,11 @@ namespace CppLisp
 		try
 		{
 			result = Eval(lispCode, /*scope:*/ null, /*moduleName :*/ moduleName, /*tracing :*/ tracing, outp, inp, onlyMacroExpand);
+			if (result == null)
+			{
+				// the script has no value
+				result = std::make_shared<LispVariant>();
+			}
 		}
 		catch (const LispException & excRef)
 		{
diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..f221ff0 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -71,6 +71,10 @@ namespace CppLisp
 			}
 			else if (token->Type == LispTokenType::ListEnd)
 			{
+				if (listStack.empty())
+				{
+					throw LispException(BracketsOutOfBalanceOrUnexpectedScriptCode, token, moduleName);
+				}
 				var temp = current;
 				listStack.pop();
 				if (listStack.size() > 0)
@@ -147,6 +151,11 @@ namespace CppLisp
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
+		if (current == null)
+		{
+			// i. e. a quote without any following expression
+			throw LispException(BracketsOutOfBalance, tokens.size() > 0 ? tokens.back() : std::shared_ptr<LispToken>(), moduleName);
+		}
 		parseResult = std::make_shared<object>(*current);
 		return i;
 	}
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..c504d74 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -414,6 +414,16 @@ namespace CppLisp
 		throw CreateInvalidOperationException("*", *this, r);
 	}
 
+	// a division by zero is an error, and a division by -1 may overflow (false is returned in this case)
+	static bool CheckDivision(const string & operation, const LispVariant & l, const LispVariant & r)
+	{
+		if (r.ToInt() == 0)
+		{
+			throw LispException(string::Format("Division by zero in {0}, value={1}", operation, l.ToString()), 0);
+		}
+		return r.ToInt() != -1;
+	}
+
 	LispVariant LispVariant::operator /(const LispVariant & r)
 	{
 		if (IsDouble() || r.IsDouble())
@@ -422,7 +432,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>(CheckDivision("/", *this, r) ? ToInt() / r.ToInt() : (int)(0u - (unsigned int)ToInt())));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
 	}
@@ -435,7 +445,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>(CheckDivision("%", *this, r) ? ToInt() % r.ToInt() : 0));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
@@ -783,6 +793,10 @@ namespace CppLisp
 
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
+		if (Value == null || r.Value == null)
+		{
+			return Value == null && r.Value == null;
+		}
 		return *Value == *(r.Value);
 	}
 
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..ec0db94 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -505,11 +505,19 @@ namespace CppLisp
 
 	const IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectRef() const
 	{
+		if (!IsList())
+		{
+			throw LispException("Invalid cast to list.", 0);
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
 	IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectNotConstRef()
 	{
+		if (!IsList())
+		{
+			throw LispException("Invalid cast to list.", 0);
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 1a390fd..e4de45d 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -118,7 +118,7 @@ namespace CppLisp
 		IEnumerable<T> Skip(int skipNoOfElements)
 		{
 			IEnumerable<T> temp(*this);
-			for (int i = 0; i < skipNoOfElements; i++)
+			for (int i = 0; i < skipNoOfElements && !temp.empty(); i++)
 			{
 				temp.erase(temp.begin());
 			}
-- 
2.43.0


From bbadc8f11ff1a7c66cf74b6cf6cf1cc674a93b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 06/28] fix: or evaluates its arguments until one of them is
 true

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index a9408bd..e0edc78 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1592,7 +1592,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From e3aef0ef9449b099d7edd5974a281af79f0a5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 07/28] fix: date-time returns the calendar year and month

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e0edc78..5ccaa37 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -540,8 +540,8 @@ static std::shared_ptr<LispVariant> Datetime(const std::vector<std::shared_ptr<o
 	std::time_t t = std::time(0);   // get time now
 	std::tm* now = std::localtime(&t);
 
-	var year = now->tm_year;
-	var month = now->tm_mon;
+	var year = now->tm_year + 1900;		// tm_year are the years since 1900
+	var month = now->tm_mon + 1;		// tm_mon are the months since january
 	var day = now->tm_mday;
 	var hour = now->tm_hour;
 	var minute = now->tm_min;
-- 
2.43.0


From 116e8bc3e78504df82bfb0f8bbae5d59f3584cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 08/28] fix: the tick counter does not depend on changes of the
 wall clock

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 5ccaa37..2faa7f6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -493,14 +493,10 @@ static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_
 #include <Windows.h>
 #else
 //#include <sys/sysinfo.h>
-#include <sys/time.h>
-// see https://www.c-plusplus.net/forum/topic/153559/gettickcount-fuer-linux
 uint64_t GetTickCount(void)
 {
-	struct timeval tv;
-
-	gettimeofday(&tv, 0);
-	return uint64_t(tv.tv_sec) * 1000 + tv.tv_usec / 1000;
+	// measure times independent of any change of the wall clock
+	return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
 }
 /*
 long getTickCount() // Zeit seit dem Booten in Sekunden
-- 
2.43.0


From eac9b6c67c66e4d394113864f4af8f55358770be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 09/28] fix: initialize the tracing modus of a scope

---
 CppLisp/CppLispInterpreter/Scope.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..3829b7a 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -32,6 +32,7 @@ namespace CppLisp
 	LispScope::LispScope(const string & fcnName, std::shared_ptr<LispScope> globalScope, std::shared_ptr<string> moduleName, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
 	{
 		Debugger = null;
+		Tracing = false;
 		IsInEval = false;
 		IsInReturn = false;
 		NeedsLValue = false;
-- 
2.43.0


From 4135bbc7be952760c04ecd9616aed7bfb58c818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 10/28] fix: the debugger survives failing commands, native
 exceptions and the end of the input, and does not change the state of the
 program

---
 CppLisp/CppLispDebugger/Debugger.cpp       | 78 ++++++++++++++++++++--
 CppLisp/CppLispDebugger/Debugger.h         |  2 +
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 3 files changed, 75 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index d4cbde7..1d2daec 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -44,8 +44,43 @@ extern "C" CppLisp::ILispDebugger * create_debugger()
 
 namespace CppLisp
 {
+	// The debugger evaluates code (i. e. typed text, conditions) at a scope of the stopped program,
+	// the program must not notice this, therefore restore the state of the scope.
+	class ScopeStateRestorer
+	{
+	public:
+		explicit ScopeStateRestorer(std::shared_ptr<LispScope> scope)
+			: m_Scope(scope), m_ModuleName(scope->ModuleName), m_Tokens(scope->Tokens), m_CurrentToken(scope->CurrentToken), 
+			  m_Tracing(scope->Tracing), m_IsInReturn(scope->IsInReturn), m_NeedsLValue(scope->NeedsLValue)
+		{
+			m_Scope->NeedsLValue = false;
+		}
+		~ScopeStateRestorer()
+		{
+			std::swap(m_Scope->ModuleName, m_ModuleName);
+			std::swap(m_Scope->Tokens, m_Tokens);
+			std::swap(m_Scope->CurrentToken, m_CurrentToken);
+			m_Scope->Tracing = m_Tracing;
+			m_Scope->IsInReturn = m_IsInReturn;
+			m_Scope->NeedsLValue = m_NeedsLValue;
+		}
+
+	private:
+		ScopeStateRestorer(const ScopeStateRestorer &);
+		ScopeStateRestorer & operator=(const ScopeStateRestorer &);
+
+		std::shared_ptr<LispScope> m_Scope;
+		string m_ModuleName;
+		IEnumerable<std::shared_ptr<LispToken>> m_Tokens;
+		std::shared_ptr<LispToken> m_CurrentToken;
+		bool m_Tracing;
+		bool m_IsInReturn;
+		bool m_NeedsLValue;
+	};
+
 	LispDebugger::LispDebugger()
 	{
+		IsInCondition = false;
 		Breakpoints = std::vector<LispBreakpointInfo>();
 		Output = /*Console.Out*/std::make_shared<TextWriter>();
 		Input = /*Console.In*/std::make_shared<TextReader>();
@@ -89,6 +124,9 @@ namespace CppLisp
 			var cmd = debugger->Input->ReadLine();
 			cmd = /*cmd != null ?*/ cmd.Trim() /*: null*/;
 
+			// a failing command must not have any effect on the stopped program
+			try
+			{
 			if (/*cmd == null ||*/string::IsNullOrEmpty(cmd) || cmd.Equals("exit") || cmd.Equals("quit") || cmd.Equals("q"))
 			{
 				bContinueWithNextStatement = true;
@@ -125,6 +163,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(doc '" + items[1] + ")";
+					ScopeStateRestorer scopeState(currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -139,6 +178,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(searchdoc '" + items[1] + ")";
+					ScopeStateRestorer scopeState(currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -242,6 +282,7 @@ namespace CppLisp
 			{
 				try
 				{
+					ScopeStateRestorer scopeState(currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
 					debugger->Output->WriteLine("result={0}", LispInterpreter::NotNull(result)->ToString());
 					interactiveScript += cmd + "\n";
@@ -255,6 +296,19 @@ namespace CppLisp
 					debugger->Output->WriteLine("Native Exception");
 				}
 			}
+			}
+			catch (LispStopDebuggerException &)
+			{
+				throw;
+			}
+			catch (LispExceptionBase & ex)
+			{
+				debugger->Output->WriteLine("Exception: " + ex.Message);
+			}
+			catch (...)
+			{
+				debugger->Output->WriteLine("Native Exception");
+			}
 		} while (!bContinueWithNextStatement);
 
 		return bRestart;
@@ -265,17 +319,23 @@ namespace CppLisp
 		if (currentAst != null)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			var currentToken = initialTopScope != null ? initialTopScope->CurrentToken : std::shared_ptr<LispToken>();
+			var startPos = currentToken != null ? currentToken->StartPos : 0;
+			var stopPos = currentToken != null ? currentToken->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
-			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
+			var tokenTxt = currentToken != null ? currentToken->ToString() : "?";
+			Output->WriteLine("--> " + (currentAst->Count() > 0 ? (*((*currentAst).begin()))->ToString()/*[0]*/ : string("?")) + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
 	}
 
 	bool LispDebugger::NeedsBreak(std::shared_ptr<LispScope> scope, LispBreakpointPosition posInfosOfCurrentAstItem)
 	{
+		// never stop in the condition of a breakpoint
+		if (IsInCondition)
+		{
+			return false;
+		}
 		if ((IsProgramStop && IsStopStepFcn(scope)) || HitsBreakpoint(posInfosOfCurrentAstItem.Item3(), scope->ModuleName, scope))
 		{
 			IsProgramStop = false;
@@ -322,6 +382,7 @@ namespace CppLisp
 			catch (...)
 			{
 				Output->WriteLine("\nNative Exception...");
+				bRestart = InteractiveLoop(this, globalScope, /*startedFromMain:*/ true);
 			}
 
 			if (bRestart)
@@ -358,11 +419,15 @@ namespace CppLisp
 				{
 					try
 					{
-						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
+						ScopeStateRestorer scopeState(scope);
+						IsInCondition = true;
+						std::shared_ptr<LispVariant> result = LispInterpreter::NotNull(Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName));
+						IsInCondition = false;
 						return result->BoolValue();
 					}
 					catch (...)
 					{
+						IsInCondition = false;
 						Output->WriteLine("Error: bad condition for line {0}: {1}", std::to_string(breakpoint.LineNo), breakpoint.Condition);
 						return false;
 					}
@@ -500,7 +565,8 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+					// no answer (i. e. end of the input) means no
+				} while (!(answer.empty() || answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
diff --git a/CppLisp/CppLispDebugger/Debugger.h b/CppLisp/CppLispDebugger/Debugger.h
index 6049917..54c8b80 100644
--- a/CppLisp/CppLispDebugger/Debugger.h
+++ b/CppLisp/CppLispDebugger/Debugger.h
@@ -88,6 +88,8 @@ namespace CppLisp
 
 		/*private*/ bool IsProgramStop; // { get; set; }
 
+		/*private*/ bool IsInCondition; // { get; set; }
+
 		/*private*/ std::function<bool(std::shared_ptr<LispScope>)> IsStopStepFcn; // { get; set; }
 
 		/*private*/ std::vector<LispBreakpointInfo> Breakpoints; // { get; set; }
diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2faa7f6..859b14a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1969,7 +1969,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 			{
 				scope->GlobalScope->Output->WriteLine(ex.ToString());
 
-				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
+				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/LispEnvironment::GetExpression(args[1]) /*new List<object> { info.Item2 }*/);
 			}
 
 			throw;	// do not slice the exception, the position of the error is needed by the caller
-- 
2.43.0


From b9666647146e235e46effedd5ef9f457a83b0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 11/28] fix: options of the command line without script or in
 front of the script do not crash the runner

---
 CppLisp/CppLispInterpreter/fuel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 96064da..82a18d4 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,11 +211,13 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			const std::vector<string> scripts = GetScriptFilesFromProgramArgs(args);
+			script = scripts.size() > 0 ? scripts.front() : string::Empty;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-		var libPath = std::vector<string>(std::find_if(args.begin(), args.end(), [](const string & v) -> bool { return v.StartsWith("-l="); }), args.end());
+		std::vector<string> libPath;
+		std::copy_if(args.begin(), args.end(), back_inserter(libPath), [](const string & v) -> bool { return v.StartsWith("-l="); });
 		if (libPath.size() > 0)
 		{
 			if (libPath.size() == 1)
@@ -356,6 +358,7 @@ namespace CppLisp
 			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ false, /*tracing:*/ false, output, input, macroExpand);
 		}
 
+		result = LispInterpreter::NotNull(result);
 		if (macroExpand)
 		{
 			output->WriteLine(string("Macro expand: ") + result->ToString());
-- 
2.43.0


From cdba230449401ac90f443c1476a6b78d4039adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 12/28] fix: no exception leaves the command line runner, a
 script that runs out of memory does not stop the following scripts

---
 CppLisp/CppLispInterpreter/fuel.cpp | 23 +++++++++++++++++++++++
 CppLisp/CppLispInterpreter/fuel.h   |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 82a18d4..0f3bd0a 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -143,6 +143,23 @@ namespace CppLisp
 	}
 
 	void Fuel::MainExtended(std::vector<string> args, std::shared_ptr<TextWriter> output, std::shared_ptr<TextReader> input)
+	{
+		// no exception (i. e. out of memory) may leave the runner
+		try
+		{
+			RunMain(args, output, input);
+		}
+		catch (const LispExceptionBase & exc)
+		{
+			output->WriteLine("Error: " + exc.Message);
+		}
+		catch (const std::exception & exc)
+		{
+			output->WriteLine(string("Error: native exception: ") + exc.what());
+		}
+	}
+
+	void Fuel::RunMain(const std::vector<string> & args, std::shared_ptr<TextWriter> output, std::shared_ptr<TextReader> input)
 	{
 #ifndef _DISABLE_DEBUGGER
 		if (args.size() == 0)
@@ -336,6 +353,12 @@ namespace CppLisp
 					result = LispVariant::CreateErrorValue(exc.Message);
 					continue;
 				}
+				catch (const std::exception & exc)
+				{
+					output->WriteLine(string("Error: native exception: ") + exc.what());
+					result = LispVariant::CreateErrorValue(exc.what());
+					continue;
+				}
 				//ILispCompiler compiler = TryGetCompiler();
 				//if (compile && compiler != null)
 				//{
diff --git a/CppLisp/CppLispInterpreter/fuel.h b/CppLisp/CppLispInterpreter/fuel.h
index dfd1a7b..447a54b 100644
--- a/CppLisp/CppLispInterpreter/fuel.h
+++ b/CppLisp/CppLispInterpreter/fuel.h
@@ -47,6 +47,8 @@ namespace CppLisp
 	private:
 		//#region private methods
 
+		/*private*/ static void RunMain(const std::vector<string> & args, std::shared_ptr<TextWriter> output, std::shared_ptr<TextReader> input);
+
 #ifndef _DISABLE_DEBUGGER
 		/*private*/ static void Usage(std::shared_ptr<TextWriter> output);
 		/*private*/ static void InteractiveLoopHeader(std::shared_ptr<TextWriter> output);
-- 
2.43.0


From 0ea0167706e1d66f6f49889e074046b5048a2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 13/28] fix: out of memory while converting or reading a text
 is an error and no wrong value

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 ++++++++
 CppLisp/CppLispInterpreter/cstypes.cpp     | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 859b14a..9969c1e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -787,6 +787,10 @@ static std::shared_ptr<LispVariant> ParseInteger(const std::vector<std::shared_p
 			throw LispExceptionBase("format error");
 		}
 	}
+	catch (const std::bad_alloc &)
+	{
+		throw;
+	}
 	catch (...)
 	{
 		return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
@@ -803,6 +807,10 @@ static std::shared_ptr<LispVariant> ParseFloat(const std::vector<std::shared_ptr
 	{
 		value = std::stod(((LispVariant)args[0]).ToString());
 	}
+	catch (const std::bad_alloc &)
+	{
+		throw;
+	}
 	catch (...)
 	{
 		return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
diff --git a/CppLisp/CppLispInterpreter/cstypes.cpp b/CppLisp/CppLispInterpreter/cstypes.cpp
index 533b4e1..d7d12bc 100644
--- a/CppLisp/CppLispInterpreter/cstypes.cpp
+++ b/CppLisp/CppLispInterpreter/cstypes.cpp
@@ -24,6 +24,7 @@
 * */
 
 #include "cstypes.h"
+#include "csexception.h"
 
 #include <iostream>
 
@@ -133,6 +134,12 @@ namespace CppLisp
 		else
 		{
 			std::getline(std::cin, input);
+			if (std::cin.bad())
+			{
+				// a line which could not be read completely (i. e. out of memory) is an error and must not block all following lines
+				std::cin.clear();
+				throw LispExceptionBase("Can not read line from console");
+			}
 		}
 		return input;
 	}
-- 
2.43.0


From 1dcf430e0e300fae75777fa7a9604071089b46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 14/28] fix: a failing dict-set does not leave an empty item in
 the dictionary

---
 CppLisp/CppLispInterpreter/Environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 9969c1e..0237eb8 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1504,7 +1504,8 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
-	dict[key] = GetDictValue(value);
+	std::shared_ptr<object> item = GetDictValue(value);		// may fail, must not leave an empty item in the dictionary
+	dict[key] = item;
 
 	return value;
 }
-- 
2.43.0


From ad383457d7df81c0cbdc925489fdb82350219d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 15/28] fix: a list that starts with the name of a variable
 (parameters, quoted data) can be evaluated

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index ca75401..3c51226 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -262,9 +262,15 @@ namespace CppLisp
 		// compile time macro: process define-macro statements ==> call special form, this will add macro to global scope as side effect
 		var function = astAsList.front();
 		var functionName = function->ToString();
+		// (a list can also start with the name of a variable, for example a list of parameters)
+		std::shared_ptr<object> definition = null;
 		if (globalScope != null && globalScope->ContainsKey(functionName))
 		{
-			var fcn = (*globalScope)[functionName]->ToLispVariantRef().FunctionValue();
+			definition = (*globalScope)[functionName];
+		}
+		if (definition != null && definition->IsLispVariant() && definition->ToLispVariantRef().IsFunction())
+		{
+			var fcn = definition->ToLispVariantRef().FunctionValue();
 			if (fcn.IsEvalInExpand())
 			{
 				var args = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList);
-- 
2.43.0


From cca7ce83554f8501ad0e335e057fac00a4470748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 16/28] fix: restoring a module name never fails for lack of
 memory

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 0237eb8..dce919f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -100,6 +100,18 @@ namespace CppLisp
 	string LispUtils_LibraryPath = string::Empty;
 }
 
+// exchanges two values without allocating memory (needed in destructors)
+template <class T>
+static void SwapValues(T & value1, T & value2)
+{
+	std::swap(value1, value2);
+}
+
+static void SwapValues(string & value1, string & value2)
+{
+	value1.swap(value2);
+}
+
 // restores the original value at the end of a block, also if the block is left with an exception
 template <class T>
 class ValueRestorer
@@ -111,7 +123,7 @@ public:
 	}
 	~ValueRestorer()
 	{
-		std::swap(m_Value, m_Original);
+		SwapValues(m_Value, m_Original);
 	}
 
 private:
-- 
2.43.0


From f918214adfd10f9934d4dbe8214064d83f6668a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 17/28] fix: restoring a scope after an evaluation of the
 debugger never fails for lack of memory

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 1d2daec..3432d78 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -57,7 +57,7 @@ namespace CppLisp
 		}
 		~ScopeStateRestorer()
 		{
-			std::swap(m_Scope->ModuleName, m_ModuleName);
+			m_Scope->ModuleName.swap(m_ModuleName);		// must not allocate memory here
 			std::swap(m_Scope->Tokens, m_Tokens);
 			std::swap(m_Scope->CurrentToken, m_CurrentToken);
 			m_Scope->Tracing = m_Tracing;
-- 
2.43.0


From 9df8609290fabe16682d086b643e60199366dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 18/28] fix: a breakpoint is not hidden by another one for the
 same line with a false condition

---
 CppLisp/CppLispDebugger/Debugger.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 3432d78..e6eab7c 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -423,16 +423,21 @@ namespace CppLisp
 						IsInCondition = true;
 						std::shared_ptr<LispVariant> result = LispInterpreter::NotNull(Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName));
 						IsInCondition = false;
-						return result->BoolValue();
+						if (result->BoolValue())
+						{
+							return true;
+						}
 					}
 					catch (...)
 					{
 						IsInCondition = false;
 						Output->WriteLine("Error: bad condition for line {0}: {1}", std::to_string(breakpoint.LineNo), breakpoint.Condition);
-						return false;
 					}
 				}
-				return true;
+				else
+				{
+					return true;
+				}
 			}
 		}
 		return false;
-- 
2.43.0


From 23a4b6ed74b55a86587417993326ebd6c6e6e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 19/28] fix: debugger stops and errors report the position of
 the called function and not of its last argument

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 3c51226..864c875 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -204,6 +204,12 @@ namespace CppLisp
 			arguments[i - 1] = result;
 		}
 
+		// the evaluation of the arguments has changed the current position
+		if (currentToken != null)
+		{
+			scope->CurrentToken = currentToken;
+		}
+
 #ifndef _DISABLE_DEBUGGER
 		// debugger processing
 		var debugger = scope->GlobalScope->Debugger;
-- 
2.43.0


From a8d4c4bfd40b2b846b59e86babab68211d94f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 20/28] fix: values of format items are never formatted again

---
 CppLisp/CppLispInterpreter/csstring.cpp | 123 ++++++------------------
 CppLisp/CppLispInterpreter/csstring.h   |   2 -
 2 files changed, 31 insertions(+), 94 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..4c8bb9d 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -29,6 +29,7 @@
 #include <cctype>
 #include <algorithm>
 #include <functional>
+#include <stdexcept>
 
 namespace CppLisp
 {
@@ -115,107 +116,45 @@ namespace CppLisp
 		return txt.size() == 0;
 	}
 
-	string string::ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found)
-	{
-		auto pos = temp.find(findText);
-		string ret = temp;
-		if (pos != std::string::npos)
-		{
-			ret = ret.replace(pos, findText.size(), arg);
-			found = true;
-		}
-		else
-		{
-			found = false;
-		}
-		return ret;
-	}
-
-	string string::ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found)
+	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
-		found = false;
-		string ret = temp;
-		auto pos = ret.find(findText);
-		if (pos != std::string::npos)
+		const string * args[] = { &arg1, &arg2, &arg3, &arg4, &arg5 };
+		const size_t maxItems = sizeof(args) / sizeof(args[0]);
+		string result;
+		size_t pos = 0;
+		// only the format string has items like {0} or {0,10}: the values of the items are never formated again
+		while (pos < txt.size())
 		{
-			auto pos2 = ret.find("}", pos + 1);
-			if (pos2 != std::string::npos)
+			size_t endPos = txt[pos] == '{' && pos + 1 < txt.size() && txt[pos + 1] >= '0' && (size_t)(txt[pos + 1] - '0') < maxItems ? txt.find("}", pos + 1) : std::string::npos;
+			if (endPos == std::string::npos || (txt[pos + 2] != '}' && txt[pos + 2] != ','))
+			{
+				result += txt[pos];
+				pos++;
+				continue;
+			}
+			const string & arg = *args[txt[pos + 1] - '0'];
+			if (arg == NULL_STRING)
 			{
-				string len = ret.substr(pos + 3, pos2 - pos - findText.size());
-				int l = std::stoi(len);
-				if (l > 0)
+				throw LispExceptionBase("Not enough items for format string: " + txt);
+			}
+			int len = 0;
+			if (txt[pos + 2] == ',')
+			{
+				try
 				{
-					int count = l - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, std::string(count > 0 ? count : 0, ' ') + arg);
-					found = true;
+					len = std::stoi(txt.substr(pos + 3, endPos - pos - 3));
 				}
-				else
+				catch (const std::logic_error &)
 				{
-					int count = abs(l) - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, arg + std::string(count > 0 ? count : 0, ' '));
-					found = true;
+					throw LispExceptionBase("Invalid format string: " + txt);
 				}
 			}
+			int count = abs(len) - (int)arg.size();
+			string fill = std::string(count > 0 ? count : 0, ' ');
+			result += len > 0 ? fill + arg : arg + fill;
+			pos = endPos + 1;
 		}
-		return ret;
-	}
-
-	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
-	{
-		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		return temp;
+		return result;
 	}
 
     int string::CompareOrdinal(const string & a, const string & b)
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..2545b73 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -185,8 +185,6 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found);
-		static string ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found);
 		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
 		static int CompareOrdinal(const string & a, const string & b);
 
-- 
2.43.0


From 1da7f432f426460634960eae944246ef744fa4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 21/28] fix: a dictionary with an empty key can be printed

---
 CppLisp/CppLispInterpreter/Variant.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index c504d74..edee499 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -715,6 +715,10 @@ namespace CppLisp
 		string result = string::Empty;
 
 		std::shared_ptr<object> native = obj;
+		if (native == null)
+		{
+			return LispToken::NilConst;
+		}
 		if (native->IsIEnumerableOfObject())
 		{
 			const IEnumerable<std::shared_ptr<object>> & container = native->ToEnumerableOfObjectRef();
-- 
2.43.0


From 2b0d2de5168162196581ad19292283ed36a726d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 22/28] fix: running out of memory while an unreadable script
 is reported does not stop the following scripts

---
 CppLisp/CppLispInterpreter/fuel.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 0f3bd0a..668c580 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -340,21 +340,25 @@ namespace CppLisp
 
 		if (loadFiles)
 		{
-			for (var fileName : scriptFiles)
+			for (const string & fileName : scriptFiles)
 			{
 				try
 				{
-					script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
-				}
-				catch (const LispExceptionBase & exc)
-				{
-					// report the error and go on with the next script
-					output->WriteLine("Error: " + exc.Message);
-					result = LispVariant::CreateErrorValue(exc.Message);
-					continue;
+					try
+					{
+						script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
+					}
+					catch (const LispExceptionBase & exc)
+					{
+						// report the error and go on with the next script
+						output->WriteLine("Error: " + exc.Message);
+						result = LispVariant::CreateErrorValue(exc.Message);
+						continue;
+					}
 				}
 				catch (const std::exception & exc)
 				{
+					// i. e. out of memory, also while an error is reported
 					output->WriteLine(string("Error: native exception: ") + exc.what());
 					result = LispVariant::CreateErrorValue(exc.what());
 					continue;
-- 
2.43.0


From d9918aa4261352170379dff968757acdb31c2376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 23/28] fix: date-time of one session cannot be overwritten by
 another thread

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index dce919f..c163a92 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -546,7 +546,13 @@ static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<obj
 static std::shared_ptr<LispVariant> Datetime(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> /*scope*/)
 {
 	std::time_t t = std::time(0);   // get time now
-	std::tm* now = std::localtime(&t);
+	std::tm buffer;					// std::localtime() shares one buffer between all threads
+#ifdef _WIN32
+	localtime_s(&buffer, &t);
+#else
+	localtime_r(&t, &buffer);
+#endif
+	const std::tm* now = &buffer;
 
 	var year = now->tm_year + 1900;		// tm_year are the years since 1900
 	var month = now->tm_mon + 1;		// tm_mon are the months since january
-- 
2.43.0


From 91051d841e7acb03ddfdc6589b60a830048c28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 24/28] fix: a debugger command left at a stop of its own does
 not end the debugger

---
 CppLisp/CppLispDebugger/Debugger.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index e6eab7c..cea52b1 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -113,6 +113,7 @@ namespace CppLisp
 		var currentScope = topScope;
 		var bContinueWithNextStatement = false;
 		var bRestart = false;
+		var bStop = false;
 		do
 		{
 			debugger->Output->Write(debugger != null ? DbgPrompt : Prompt);
@@ -131,10 +132,7 @@ namespace CppLisp
 			{
 				bContinueWithNextStatement = true;
 				bRestart = false;
-				if (!startedFromMain)
-				{
-					throw LispStopDebuggerException();
-				}
+				bStop = !startedFromMain;
 			}
 			else if (cmd.Equals("help") || cmd.Equals("h"))
 			{
@@ -297,10 +295,6 @@ namespace CppLisp
 				}
 			}
 			}
-			catch (LispStopDebuggerException &)
-			{
-				throw;
-			}
 			catch (LispExceptionBase & ex)
 			{
 				debugger->Output->WriteLine("Exception: " + ex.Message);
@@ -311,6 +305,12 @@ namespace CppLisp
 			}
 		} while (!bContinueWithNextStatement);
 
+		// stop the program, but not because of a command which was left at a stop of its own
+		if (bStop)
+		{
+			throw LispStopDebuggerException();
+		}
+
 		return bRestart;
 	}
 
-- 
2.43.0


From 97950e912551cb28f77baad2312c1353e78af663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 25/28] fix: a lambda without parameters or body is a script
 error and does not crash when it is called

---
 CppLisp/CppLispInterpreter/Environment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index c163a92..7621f52 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1910,6 +1910,11 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	if (args.size() < 2)
+	{
+		throw LispException(string::Format("Bad argument count in {0}, has {1} expected {2}", Lambda, std::to_string(args.size()), "2"), scope.get());
+	}
+
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
-- 
2.43.0


From 93496eac5e8fd683942c3108ee869d44a507911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 26/28] fix: an import without a library path does not look at
 the root of the file system

---
 CppLisp/CppLispInterpreter/Environment.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 7621f52..ac1273e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -645,8 +645,11 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 		if (!File_Exists(fileName))
 		{
 			// try the given library path (if available)
-			fileName = LispUtils_LibraryPath + /*Path.*/DirectorySeparatorChar + orgModuleFileName;
-			fileName = AddFileExtensionIfNeeded(fileName);
+			if (!string::IsNullOrEmpty(LispUtils_LibraryPath))
+			{
+				fileName = LispUtils_LibraryPath + /*Path.*/DirectorySeparatorChar + orgModuleFileName;
+				fileName = AddFileExtensionIfNeeded(fileName);
+			}
 			if (!File_Exists(fileName))
 			{
 				// try default path .\Library\modulename.fuel
@@ -668,7 +671,7 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 							// try environment variable FUELPATH
 							//string envPath = Environment.GetEnvironmentVariable("FUELPATH");
 							char * envPath = getenv("FUELPATH");
-							if (envPath != null)
+							if (envPath != null && *envPath != '\0')
 							{
 								fileName = envPath + /*Path.*/DirectorySeparatorChar + orgModuleFileName;
 								fileName = AddFileExtensionIfNeeded(fileName);
-- 
2.43.0


From b75fd7f70c643e2e8f9fb6e6e3e9f19cb555c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 27/28] fix: arguments after a spliced list are passed to the
 function and do not crash the process

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 864c875..00c4e17 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -174,7 +174,8 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments; // = new object[astWithResolvedValues->Count() - 1];
+		arguments.reserve(astWithResolvedValues->Count() - 1);
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -190,18 +191,16 @@ namespace CppLisp
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
 					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
 					for(var elem : lst)
 					{
-						arguments[i - 1] = elem;
-						i++;
+						arguments.push_back(elem);
 					}
 
-					break;
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 		// the evaluation of the arguments has changed the current position
-- 
2.43.0


From 9f57b4be6bcd0500dc64a8170e1284039b48756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 28/28] fix: running out of memory while a native exception is
 reported does not leave the safe evaluation

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 03a28ee..10d48b1 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -201,6 +201,10 @@ namespace CppLisp
 		{
 			result = ReportError(exc.Message, outp);
 		}
+		catch (const std::exception & exc)
+		{
+			result = ReportError(string("Native exception: ") + exc.what(), outp);
+		}
 		}
 		catch (const std::exception & exc)
 		{
-- 
2.43.0

