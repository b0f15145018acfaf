From daba7b9b0d91bbdf3499e7beba78d4cd2bdcce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 01/43] fix: run scripts of objects held in nested arrays

---
 jom/jom.go | 90 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3073385..8ed94e3 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1164,6 +1164,40 @@ func (jsonMap *JsonMap) MarkupCode(jsonPath string, shebangName string, script s
 	return err
 }
 
+// Finds all the script and non-script fields within all the objects that are in the given array or in any arrays nested
+// within it.
+func findScriptFieldsArray(array []interface{}) (script []interface{}, nonScript []interface{}, found bool) {
+	// Allocate matching arrays
+	script = make([]interface{}, len(array))
+	nonScript = make([]interface{}, len(array))
+
+	for i, inner := range array {
+		switch inner.(type) {
+		case map[string]interface{}:
+			// Recurse over all objects
+			innerMap := NewFromMap(inner.(map[string]interface{}))
+			if innerMap.FindScriptFields() {
+				found = true
+				script[i] = innerMap.traversal.script
+			}
+			// Always join nonScriptFieldsInner back into main array (nonScript)
+			nonScript[i] = innerMap.traversal.nonScript
+		case []interface{}:
+			// Recurse down the nested array
+			scriptInner, nonScriptInner, foundInner := findScriptFieldsArray(inner.([]interface{}))
+			if foundInner {
+				found = true
+				script[i] = scriptInner
+			}
+			nonScript[i] = nonScriptInner
+		default:
+			// Leave the current element of the script array as nil to indicate that there is no script here
+			nonScript[i] = inner
+		}
+	}
+	return script, nonScript, found
+}
+
 // Finds all the script and non-script fields within a JsonMap.
 //
 // Updates the script and nonScript fields within the JsonMap's traversal object. Scripts will be replaced by a code.Code
@@ -1188,30 +1222,7 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 			// Always join the nonScriptFieldsInner back into the main tree (nonScriptFields)
 			jsonMap.traversal.nonScript[key] = innerMap.traversal.nonScript
 		case []interface{}:
-			// Allocate a matching array
-			arrayLen := len(element.([]interface{}))
-			scriptArrayInner := make([]interface{}, arrayLen)
-			nonScriptArrayInner := make([]interface{}, arrayLen)
-			foundInner := false
-
-			for i, inner := range element.([]interface{}) {
-				switch inner.(type) {
-				case map[string]interface{}:
-					// Recurse over all objects
-					innerMap := NewFromMap(inner.(map[string]interface{}))
-					foundInnerInner := innerMap.FindScriptFields()
-					if foundInnerInner {
-						foundInner = true
-						scriptArrayInner[i] = innerMap.traversal.script
-					}
-					// Always join nonScriptFieldsInner back into main array (nonScriptArrayInner)
-					nonScriptArrayInner[i] = innerMap.traversal.nonScript
-				default:
-					// Fill current element with nil in the scriptArray to indicate that there is no script here
-					scriptArrayInner[i] = nil
-					nonScriptArrayInner[i] = inner
-				}
-			}
+			scriptArrayInner, nonScriptArrayInner, foundInner := findScriptFieldsArray(element.([]interface{}))
 
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
@@ -1249,6 +1260,25 @@ func (jsonMap *JsonMap) Strip() {
 	}
 }
 
+// Runs all the scripts within all the objects that are in the given array or in any arrays nested within it. The array
+// is updated in place.
+func runArray(array []interface{}, scopePath string) {
+	for i, inner := range array {
+		innerScopePath := fmt.Sprintf("%s.[%d]", scopePath, i)
+		switch inner.(type) {
+		case map[string]interface{}:
+			jsonInnerMap := NewFromMap(inner.(map[string]interface{}))
+			// Remember to update the scope path of the new JsonMap
+			_, _ = fmt.Fprint(jsonInnerMap.traversal.scopePath, innerScopePath)
+			jsonInnerMap.Run()
+			// Join the subtree back into the array
+			array[i] = jsonInnerMap.insides
+		case []interface{}:
+			runArray(inner.([]interface{}), innerScopePath)
+		}
+	}
+}
+
 // Given a JsonMap this will traverse it and execute all scripts. Will update the given JsonMap in place.
 //
 // • All scripts will be run and removed from the JsonMap.
@@ -1327,17 +1357,7 @@ func (jsonMap *JsonMap) Run() {
 		case []interface{}:
 			elementArray := element.([]interface{})
 			// Iterate over array and recurse on all objects that may be inside the array
-			for i, inner := range elementArray {
-				switch inner.(type) {
-				case map[string]interface{}:
-					jsonInnerInnerMap := NewFromMap(inner.(map[string]interface{}))
-					// Remember to update the scope path of the new JsonMap
-					_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.%s.[%d]", jsonMap.traversal.scopePath.String(), key, i)
-					jsonInnerInnerMap.Run()
-					// Join the subtree back into the array
-					elementArray[i] = jsonInnerInnerMap.insides
-				}
-			}
+			runArray(elementArray, fmt.Sprintf("%s.%s", jsonMap.traversal.scopePath.String(), key))
 			// Join array back into the main tree
 			jsonMap.insides[key] = elementArray
 		}
-- 
2.43.0


From b23c80ca8ef46043ec160929dd05e12e76fb6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 02/43] fix: strip scripts that are only found inside arrays

---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index 8ed94e3..ea6b654 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1226,6 +1226,7 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
+				found = true
 				jsonMap.traversal.script[key] = scriptArrayInner
 			}
 			// Always join nonScriptArrayInner back into the main tree (nonScriptFields)
-- 
2.43.0


From aef173e4e7f54620675a467419336a9cc0092b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 03/43] fix: forget previously found script fields so that
 stripped scripts do not run

---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index ea6b654..731cfef 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1207,6 +1207,10 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	// join a scriptFields subtree to its parent tree.
 	found = false
 
+	// Forget the fields found by any previous call
+	jsonMap.traversal.script = make(map[string]interface{})
+	jsonMap.traversal.nonScript = make(map[string]interface{})
+
 	for key, element := range *(jsonMap.GetInsides()) {
 		switch element.(type) {
 		case map[string]interface{}:
-- 
2.43.0


From cb944315eb5040a944a8ad9e89803ddf571a79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 04/43] fix: a filter node's halting timer no longer interrupts
 later nodes

---
 jom/jom.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 731cfef..0097cb1 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -287,12 +287,18 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				}
 			}()
 
-			vm.Interrupt = make(chan func(), 1)
+			// Each node has its own interrupt channel so that the timer of an earlier node can never interrupt the
+			// evaluation of a later one
+			interrupt := make(chan func(), 1)
+			vm.Interrupt = interrupt
+			defer func() {
+				vm.Interrupt = nil
+			}()
 
 			// Start the timer
 			go func() {
 				time.Sleep(1 * globals.HaltingDelayUnits)
-				vm.Interrupt <- func() {
+				interrupt <- func() {
 					panic(globals.HaltingProblem)
 				}
 			}()
-- 
2.43.0


From 219a89d6666d580a839e17610e9408b69668ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 05/43] fix: goroutines of native callbacks no longer block for
 ever

---
 code/go/go.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index e085457..c2e13fd 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -33,7 +33,8 @@ func init() {
 func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
 	// Get the callback from the code object
 	callback := code.Script.(func(json json_map.JsonMapInt))
-	interrupts := make(chan func() bool)
+	// Buffered for both the callback and the timer so that neither blocks for ever when the other came first
+	interrupts := make(chan func() bool, 2)
 
 	// Construct a wrapper around the callback which will write to the interrupts channel once finished
 	callbackSafe := func() {
-- 
2.43.0


From ab2448487444991c2170003e55120d709ede78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 06/43] fix: concurrent evaluations no longer share the scope
 used to create selectors

---
 code/js/js.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 1fae7f0..7e2858b 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,8 +28,6 @@ var (
 	ExternalConsoleLogStderr io.Writer = os.Stderr
 )
 
-var toBeCloned json_map.JsonMapInt
-
 // Used to map a JS Object from Otto into a map so that it can be used.
 func traverseObject(object *otto.Object) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
@@ -149,7 +147,9 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 // • json_map.AbsolutePaths will be converted into JS values.
 //
 // • The returned object will be constructed (_absolutePaths, getValues, setValues).
-func jsonPathSelector(call otto.FunctionCall) otto.Value {
+//
+// The given json map is the scope of the running script; it is only used to create new JsonMaps.
+func jsonPathSelector(scope json_map.JsonMapInt, call otto.FunctionCall) otto.Value {
 	var err error
 	vm := call.Otto
 
@@ -176,7 +176,7 @@ func jsonPathSelector(call otto.FunctionCall) otto.Value {
 		}
 		// Marshall the JSON string into a JsonMap
 		trailString, _ := trailStringValue.ToString()
-		jMap := toBeCloned.Clone(true)
+		jMap := scope.Clone(true)
 		err = jMap.Unmarshal([]byte(trailString))
 		if err != nil {
 			throw(fmt.Sprintf("cannot Unmarshall \"%s\" into a JsonMap", trailString))
@@ -364,7 +364,9 @@ var builtinVars = []struct{
 		}
 		jom := map[string]interface{} {
 			"trail": trail,
-			"jsonPathSelector": jsonPathSelector,
+			"jsonPathSelector": func(call otto.FunctionCall) otto.Value {
+				return jsonPathSelector(jsonMap, call)
+			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
 		if val, err := runtime.ToValue(jom); err != nil {
@@ -464,7 +466,6 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 //
 // • The new json_map.JsonMapInt is returned.
 func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
-	toBeCloned = jsonMap
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
-- 
2.43.0


From 0f06c115a28ec0656311dcbac5f0d7420423e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 07/43] fix: concurrent evaluations no longer change the shared
 path tokenizers

---
 jom/json_map/json_path_parse.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6891d6a..dd1bbc0 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -206,6 +206,14 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// The tokens are always matched with their longest match. This is set up once as the regular expressions are shared by
+// all the calls to ParseJsonPath, which can happen at the same time.
+func init() {
+	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
+		state.tokenRegex.Longest()
+	}
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -263,10 +271,6 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	currentState := &root
 	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
 
-	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
-		state.tokenRegex.Longest()
-	}
-
 	for {
 		// Break out if at finish state
 		if currentState.name == "End" {
-- 
2.43.0


From 94c07527fb5d7bfc5a31962e8c68afcca01a394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 08/43] fix: selections return their values and errors in the
 same order every time

---
 jom/jom.go | 139 +++++++++++++++++++++++++++--------------------------
 1 file changed, 72 insertions(+), 67 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 0097cb1..86effde 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -9,7 +9,6 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
-	"github.com/andygello555/gotils/concurrency"
 	"github.com/andygello555/gotils/ints"
 	"github.com/andygello555/gotils/maps"
 	"github.com/andygello555/gotils/slices"
@@ -108,6 +107,16 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 	return &jsonMap.insides
 }
 
+// Returns the keys of the given map in lexicographical order.
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Evaluates the given JSON path filter expression on the given obj on the given json map. Returns a list of values of
 // all nodes which are satisfied by the given filter expression. Filter expressions are evaluated using the otto JS
 // interpreter so (pretty much) any valid javascript can be written within them as long as they return a boolean value.
@@ -333,8 +342,10 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Start our for loop depending on whether our obj is a map[string]interface{} or a []interface{}
 	//fmt.Println("\nRunning filter: \"", string(filterExp), "\" on", obj)
 	if mapType {
-		for k, node := range obj.(map[string]interface{}) {
-			err = loopBody(k, node)
+		// The keys are visited in lexicographical order so that the results have the same order each time
+		objMap := obj.(map[string]interface{})
+		for _, k := range sortedKeys(objMap) {
+			err = loopBody(k, objMap[k])
 			if err != nil {
 				break
 			}
@@ -357,47 +368,38 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 
 // Run by GetAbsolutePaths in parallel for each absolute path in an json_map.AbsolutePaths array to find the requested values.
 //
-// Each found value is pushed to valChan and each error is pushed to errChan. Once it has complete it calls Done on the wait group.
-func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{}, errChan chan<- error, valChan chan<- json_map.JsonPathNode, wg *sync.WaitGroup) {
-	defer wg.Done()
+// Returns the found value or the error which has occurred.
+func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{}) (found json_map.JsonPathNode, err error) {
 	var currValue interface{} = jsonMap
-	var err error = nil
 
 	// Temp helper function for recursive lookups
 	recursiveLookup := func(key json_map.AbsolutePathKey, arrOrMap interface{}) []interface{} {
 		// We'll have to spin up additional finders for every key within this map
 		// Create a wait group which all Sub-Finders will be added to
 		var subWg sync.WaitGroup
-		// Create an in and out channel using the InOut data structure
-		inFound, outFound := concurrency.InOut()
 		toFind := key.Value.(string)
 		foundValues := make([]interface{}, 0)
 
 		// Set up a temp function for the RecursiveLookup finders
-		var subFinder func(subtree interface{}, subWg *sync.WaitGroup, toFind string, foundlings chan<- interface{})
-		subFinder = func(subtree interface{}, subWg *sync.WaitGroup, toFind string, foundlings chan<- interface{}) {
-			// Only defer done when a wait group is given
-			if subWg != nil {
-				defer subWg.Done()
-			}
-
+		var subFinder func(subtree interface{}, foundlings *[]interface{})
+		subFinder = func(subtree interface{}, foundlings *[]interface{}) {
 			switch subtree.(type) {
 			case map[string]interface{}:
 				subM := subtree.(map[string]interface{})
-				for subSubKey, subSubtree := range subM {
+				for _, subSubKey := range sortedKeys(subM) {
 					// Recurse into all the keys within the map checking if the key of the current subtree is equal to
 					// the key we are meant to be finding
 					if subSubKey == toFind {
-						// If so we add the subtree to the values channel
-						foundlings <- subSubtree
+						// If so we add the subtree to the found values
+						*foundlings = append(*foundlings, subM[subSubKey])
 					}
 					// ... we still traverse in order to explore everything
-					subFinder(subSubtree, nil, toFind, foundlings)
+					subFinder(subM[subSubKey], foundlings)
 				}
 			case []interface{}:
 				// Since an array doesn't have any keys to search for we will just recurse down
 				for _, subSubtree := range subtree.([]interface{}) {
-					subFinder(subSubtree, nil, toFind, foundlings)
+					subFinder(subSubtree, foundlings)
 				}
 			default:
 				// Base case so we'll break and return
@@ -406,37 +408,45 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			return
 		}
 
-		// Start the sub-finders for each sub-tree of depth one
+		// Find the sub-trees of depth one
 		// We do a type switch here to work out whether we are iterating over a map or on array
+		subtrees := make([]interface{}, 0)
 		switch arrOrMap.(type) {
 		case map[string]interface{}:
 			m := arrOrMap.(map[string]interface{})
-			subWg.Add(len(m))
-			for _, value := range m {
-				go subFinder(value, &subWg, toFind, inFound)
+			for _, k := range sortedKeys(m) {
+				subtrees = append(subtrees, m[k])
 			}
 		case []interface{}:
-			arr := arrOrMap.([]interface{})
-			subWg.Add(len(arr))
-			for _, value := range arr {
-				go subFinder(value, &subWg, toFind, inFound)
-			}
+			subtrees = append(subtrees, arrOrMap.([]interface{})...)
 		}
 
-		// Wait for all Finders and then close the input channel
+		// Start the sub-finders for each sub-tree. Each sub-finder has its own slice of found values so that the order
+		// of the values does not depend on which sub-finder is the quickest
+		found := make([][]interface{}, len(subtrees))
+		subWg.Add(len(subtrees))
+		for i := range subtrees {
+			go func(i int) {
+				defer subWg.Done()
+				subFinder(subtrees[i], &found[i])
+			}(i)
+		}
+
+		// Wait for all Finders
 		subWg.Wait()
-		close(inFound)
 
-		// Finally we read all the values from the out channel and append them to the foundValues array
-		for v := range outFound {
-			// If the value added was an array then we will "unwrap" it
-			switch v.(type) {
-			case []interface{}:
-				for _, av := range v.([]interface{}) {
-					foundValues = append(foundValues, av)
+		// Finally we append all the found values, sub-tree by sub-tree, to the foundValues array
+		for _, foundlings := range found {
+			for _, v := range foundlings {
+				// If the value added was an array then we will "unwrap" it
+				switch v.(type) {
+				case []interface{}:
+					for _, av := range v.([]interface{}) {
+						foundValues = append(foundValues, av)
+					}
+				default:
+					foundValues = append(foundValues, v)
 				}
-			default:
-				foundValues = append(foundValues, v)
 			}
 		}
 		return foundValues
@@ -625,16 +635,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 		}
 	}
 
-	if err != nil {
-		// Push the error to the error channel if one has occurred
-		errChan <- err
-	} else {
-		// Push the value into the value channel
-		valChan <- json_map.JsonPathNode{
-			Absolute: path,
-			Value:    currValue,
-		}
-	}
+	return json_map.JsonPathNode{
+		Absolute: path,
+		Value:    currValue,
+	}, err
 }
 
 // Given the list of absolute paths for a JsonMap, will return the list of values that said paths lead to.
@@ -646,35 +650,36 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	// Create a wait group which all Finders will be added to
 	var wg sync.WaitGroup
 
-	// Both the channels can be buffered to be the length of the array of absolute paths to be evaluated
-	// Create a channel of errors which records all the errors that happen within the Finders
-	errsChan := make(chan error, len(*absolutePaths))
-	// Also create a channel for the return values found by the Finders
-	valuesChan := make(chan json_map.JsonPathNode, len(*absolutePaths))
+	// Each Finder has its own slot for the value it finds and for the error it encounters. This is so that the order of
+	// the values and the errors is the order of the absolute paths, no matter which Finder is the quickest
+	found := make([]json_map.JsonPathNode, len(*absolutePaths))
+	foundErrs := make([]error, len(*absolutePaths))
 
 	// Start the finders
 	wg.Add(len(*absolutePaths))
-	for _, absolutePath := range *absolutePaths {
-		go pathFinder(absolutePath, jsonMap.insides, errsChan, valuesChan, &wg)
+	for i, absolutePath := range *absolutePaths {
+		go func(i int, absolutePath []json_map.AbsolutePathKey) {
+			defer wg.Done()
+			found[i], foundErrs[i] = pathFinder(absolutePath, jsonMap.insides)
+		}(i, absolutePath)
 	}
 
-	// Wait for all Finders and then close the errors channel
+	// Wait for all Finders
 	wg.Wait()
-	close(errsChan)
-	close(valuesChan)
 
-	if len(errsChan) > 0 {
-		errs = make([]error, 0)
-		// Consume all the errors in the channel and append them to the error return array
-		for err := range errsChan {
+	// Append all the errors to the error return array
+	for _, err := range foundErrs {
+		if err != nil {
 			errs = append(errs, err)
 		}
+	}
+	if errs != nil {
 		return values, errs
 	}
 
-	// Fill out the values array by consuming from the values channel
+	// Fill out the values array from the found values
 	values = make([]*json_map.JsonPathNode, 0)
-	for value := range valuesChan {
+	for _, value := range found {
 		//fmt.Println("Appending", value)
 		switch value.Value.(type) {
 		case []interface{}:
-- 
2.43.0


From 277c4198a2285dcc3ba410012344e1cd04505b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 09/43] fix: recursive lookups also find the keys of the map
 they start from

---
 jom/jom.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 86effde..a602d70 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -415,7 +415,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{})
 		case map[string]interface{}:
 			m := arrOrMap.(map[string]interface{})
 			for _, k := range sortedKeys(m) {
-				subtrees = append(subtrees, m[k])
+				// The key is kept along with its sub-tree as it might be the key we are meant to be finding
+				subtrees = append(subtrees, map[string]interface{}{k: m[k]})
 			}
 		case []interface{}:
 			subtrees = append(subtrees, arrOrMap.([]interface{})...)
@@ -830,24 +831,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					return newSubtree
 				}
 
-				// RECURSE DOWN EACH SUBTREE IN THE MAP/ARRAY
-				// We do a type switch here to work out whether we are iterating over a map or on array
-				switch arrOrMap.(type) {
-				case map[string]interface{}:
-					m := arrOrMap.(map[string]interface{})
-					mCopy := maps.CopyMap(m)
-					for k, v := range m {
-						mCopy[k] = subFinder(v, toFind)
-					}
-					newTree = mCopy
-				case []interface{}:
-					arr := arrOrMap.([]interface{})
-					arrCopy := make([]interface{}, len(arr))
-					for i, v := range arr {
-						arrCopy[i] = subFinder(v, toFind)
-					}
-					newTree = arrCopy
-				}
+				// RECURSE DOWN THE MAP/ARRAY. The keys of the map itself might also match
+				newTree = subFinder(arrOrMap, toFind)
 				return newTree
 			}
 
-- 
2.43.0


From f572c77d758b1c41d7da8bf7e406131578eee89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 10/43] fix: recursive sets also reach the matches nested
 inside of other matches

---
 jom/jom.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index a602d70..a7a38ea 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -802,6 +802,11 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 							// If the current key is equal to the toFind key we continue the recursiveTraversal
 							// subroutine from here
 							if subSubKey == toFind {
+								// There can be more matches inside the match. If the match is about to be set or deleted
+								// as a whole we don't need to look for them
+								if !lastKey {
+									newSubtreeM[toFind] = subFinder(subSubtree, toFind)
+								}
 								// Then we can use the setterMap function to set, delete from or recurse down the map
 								// This is so that if we still have path remaining we will continue the search at this subtree
 								setterMap(&newSubtreeM, toFind)
-- 
2.43.0


From cd0d39a3b028f9fd4009faa9078508415e8def3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 11/43] fix: scripts of sibling scopes run in the same order
 every time

---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index a7a38ea..0079233 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1349,8 +1349,10 @@ func (jsonMap *JsonMap) Run() {
 		(*jsonMap).insides = *newScope.GetInsides()
 	}
 
-	// Iterate over each key within the new scope (or the same scope if no scripts were run)
-	for key, element := range (*jsonMap).insides {
+	// Iterate over each key within the new scope (or the same scope if no scripts were run). This is done in
+	// lexicographical order so that the scripts of sibling scopes are always run in the same order
+	for _, key := range sortedKeys(jsonMap.insides) {
+		element := jsonMap.insides[key]
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse when there is a nested object
-- 
2.43.0


From 73f02d23a35a909b8fe0cd5077670de1409137b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 12/43] fix: sets visit the keys of a map in the same order
 every time

---
 jom/jom.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 0079233..b79674e 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -798,7 +798,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 
 						// Recurse into all the other keys within the map and set the new subtrees returned in the
 						// clone of the current subtree (newSubtreeM)
-						for subSubKey, subSubtree := range subM {
+						for _, subSubKey := range sortedKeys(subM) {
+							subSubtree := subM[subSubKey]
 							// If the current key is equal to the toFind key we continue the recursiveTraversal
 							// subroutine from here
 							if subSubKey == toFind {
@@ -863,7 +864,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					panic(recursionError{fmt.Sprintf("Cannot access map %v with numerical key %v", currTree, key.Value)})
 				case json_map.Wildcard:
 					// We always iterate through a copy of the map as we might delete a key-value pair from the original map
-					for k := range currTree.(map[string]interface{}) {
+					for _, k := range sortedKeys(currTree.(map[string]interface{})) {
 						setterMap(&m, k)
 					}
 				case json_map.Filter:
-- 
2.43.0


From 37639cd15c7ca43259b6a6c18343aedebcfb8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 13/43] fix: slices can no longer reach past the end of an
 array

---
 jom/jom.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index b79674e..9fe0923 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -615,7 +615,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{})
 					}()
 					// Then set the current value to the slice
 					// NOTE this might panic so we set up a recovery function above so we can re-wrap any slice errors that occur
-					currValue = arr[sliceIndices[0]:sliceIndices[1]]
+					// The capacity is cut down to the length so that indices past the end of the array cause an error
+					currValue = arr[:len(arr):len(arr)][sliceIndices[0]:sliceIndices[1]]
 				}()
 
 				// Break from the loop if an error has occurred
-- 
2.43.0


From de6b70824e1e4a9b042be10ba7484bb1935e0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 14/43] fix: setting an empty slice no longer sets the whole
 array

---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 9fe0923..fe66f4c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -986,8 +986,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 						panic(recursionError{err.Error()})
 					}
 
-					// Then we iterate through a range of slice indices
-					setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					// Then we iterate through a range of slice indices only if there are any indices within the slice
+					if sliceIndices[0] < sliceIndices[1] {
+						setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					}
 				case json_map.RecursiveLookup:
 					// NOTE: The RecursiveLookup case is a special scenario where the traversal is continued within the
 					// recursive lookup function. This means after the function returns we can empty the path queue so
-- 
2.43.0


From b890a20712186eb849dba9079affe4afce04eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 15/43] fix: deleting all the elements of an empty array no
 longer panics

---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index fe66f4c..c35588e 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -773,8 +773,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 				}
 
 				if deleteVal {
-					// Delete indices using the RemoveElems from gotils
-					*arrRef = slices.RemoveElems(*arrRef, indices...)
+					// Delete indices using the RemoveElems from gotils. There are no indices when the array is empty
+					if len(indices) > 0 {
+						*arrRef = slices.RemoveElems(*arrRef, indices...)
+					}
 				} else {
 					// We have to iterate through all indices and set the according values
 					for _, idx := range indices {
-- 
2.43.0


From daf5bde65ad00a9666bae8626c484f938123e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 16/43] fix: a filter no longer hides the error of an earlier
 path key

---
 jom/jom.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index c35588e..4c562e0 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -499,8 +499,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{})
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the values of each key in the map
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
-				if err != nil {
+				var filterErr error
+				currValue, filterErr = filterRunner(m, filterExp, jsonMap, true, false)
+				if filterErr != nil {
+					// NOTE we don't set err otherwise, so that an error of an earlier key isn't forgotten
+					err = filterErr
 					break
 				}
 			case json_map.First:
@@ -563,8 +566,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{})
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the elements of the array
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
-				if err != nil {
+				var filterErr error
+				currValue, filterErr = filterRunner(arr, filterExp, jsonMap, false, false)
+				if filterErr != nil {
+					// NOTE we don't set err otherwise, so that an error of an earlier key isn't forgotten
+					err = filterErr
 					break
 				}
 			case json_map.First:
-- 
2.43.0


From 76c706fcb2b93841278dc4de862c3c620d52c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 17/43] fix: a path that does not start at the root is reported
 as an error

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index dd1bbc0..0827599 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -285,7 +285,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-			break
+			return nil, err
 		}
 
 		// Consume len(token) number of bytes
-- 
2.43.0


From b828f8d1178c822c6432fa793ce24c26370a0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 18/43] fix: runaway recursion in scripts and filters no longer
 crashes the process

---
 code/js/js.go    | 2 ++
 globals/const.go | 2 ++
 jom/jom.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 7e2858b..1389830 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -469,6 +469,8 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
+	// Without a limit to the call depth runaway recursion overflows the stack, which cannot be recovered from
+	vm.SetStackDepthLimit(globals.MaxCallDepth)
 	// Register all builtins
 	for _, builtin := range builtinFuncs {
 		if err := vm.Set(builtin.name, builtin.function); err != nil {
diff --git a/globals/const.go b/globals/const.go
index 560baa9..3e76c1f 100644
--- a/globals/const.go
+++ b/globals/const.go
@@ -16,6 +16,8 @@ const (
 	CurrentNodeLiteralVarName     = "__currentNodeLiteral__"
 	CurrentNodeValueVarName       = "__currentNode__"
 	ModifiedTrailValueVarName     = "__modifiedTrail__"
+	// The maximum depth of calls within a script or a filter. Any deeper causes a RangeError.
+	MaxCallDepth                  = 10000
 )
 
 // These are global variables that can be changed.
diff --git a/jom/jom.go b/jom/jom.go
index 4c562e0..58a1902 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -241,6 +241,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		}
 	}
 	vm := otto.New()
+	// Without a limit to the call depth runaway recursion overflows the stack, which cannot be recovered from
+	vm.SetStackDepthLimit(globals.MaxCallDepth)
 
 	// Setup up an anonymous function which will make up our for loop body which iterates over our obj
 	loopBody := func(nodeIdx interface{}, node interface{}) (err error) {
-- 
2.43.0


From 640114c2c48fe5a17215ce9980381a19b108f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 19/43] fix: the error of a scope that cannot be converted back
 names its script

---
 code/js/js.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index 1389830..3694c64 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -531,7 +531,8 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	// De-JOM-ify the environment and return the json_map.JsonMapInt
 	data, err = deJomIfy(jsonMap, vm)
 	if err != nil {
-		return nil, err
+		// The script left behind a scope which is not a JSON object so this is also a ScriptError
+		return nil, globals.ScriptError.FillError(err.Error(), fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script))
 	}
 	return data, nil
 }
-- 
2.43.0


From f21c76ee80971b626a27e38b3b7548ceb5eab06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 20/43] fix: negative indices given to MustPop no longer hide
 the other indices

---
 jom/jom.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 58a1902..c2d8e76 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1553,8 +1553,14 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 	popped = make([]interface{}, 0)
 	newArr := make([]interface{}, 0)
 
-	var currIdx int
-	currIdx, indices = indices[0], indices[1:]
+	// Negative indices are never within the range of the array
+	for len(indices) > 0 && indices[0] < 0 {
+		indices = indices[1:]
+	}
+	currIdx := -1
+	if len(indices) > 0 {
+		currIdx, indices = indices[0], indices[1:]
+	}
 
 	for i, node := range nodes {
 		if currIdx == i {
-- 
2.43.0


From f227a9ef0ec0a59b94a3552b021377424096cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 21/43] fix: values can be pushed to an empty array

---
 jom/jom.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index c2d8e76..866ab95 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1494,6 +1494,36 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 	jsonMap.MustSet(jsonPath, nil)
 }
 
+// Checks whether the given JSON path, made up of nothing else but properties and indices, points to an empty array.
+func (jsonMap *JsonMap) isEmptyArray(jsonPath string) bool {
+	paths, err := json_map.ParseJsonPath(jsonPath)
+	if err != nil || len(paths) != 1 {
+		return false
+	}
+	var currValue interface{} = jsonMap.insides
+	for _, key := range paths[0] {
+		switch key.KeyType {
+		case json_map.StringKey:
+			m, ok := currValue.(map[string]interface{})
+			if !ok {
+				return false
+			}
+			currValue = m[key.Value.(string)]
+		case json_map.IndexKey:
+			arr, ok := currValue.([]interface{})
+			if i := key.Value.(int); ok && i >= 0 && i < len(arr) {
+				currValue = arr[i]
+			} else {
+				return false
+			}
+		default:
+			return false
+		}
+	}
+	arr, ok := currValue.([]interface{})
+	return ok && len(arr) == 0
+}
+
 // Pushes to an []interface{} indicated by the given JSON path at the given indices and panics if any errors occur.
 //
 // Note: This assumes that the JSON path points to an array and will use JsonPathSetter to set the JSON path to be the array selected + the pushed values.
@@ -1509,7 +1539,8 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 // • If a given index is greater than the length of the array to insert to, all empty spaces will be filled with nil.
 func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices... int) {
 	nodes := jsonMap.MustGet(jsonPath)
-	if nodes == nil {
+	// There are no nodes within an empty array either but it can still be pushed to
+	if nodes == nil && !jsonMap.isEmptyArray(jsonPath) {
 		panic(errors.New(fmt.Sprintf("no node at \"%s\" to push to", jsonPath)))
 	}
 
-- 
2.43.0


From da659c30fd9ff4e8f191d533cb36b33b2e33918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 22/43] fix: the results of several files are printed in the
 order of the files

---
 json-dom.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json-dom.go b/json-dom.go
index fb6d6d3..b425ce8 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -175,6 +175,8 @@ func main() {
 			filesPtr := element["files"].(*Files)
 			inputPtr := element["input"].(*string)
 
+			// The names of the data in the order that they were given, along with the data of each name
+			dataNames := make([]string, 0)
 			dataSet := make(map[string][]byte, 0)
 			if len(*filesPtr) != 0 || *inputPtr != "" {
 				// If both a file and a stdin input is given then evaluate the files first
@@ -207,11 +209,15 @@ func main() {
 						if err != nil {
 							globals.ReadFileErr.Handle(err)
 						}
+						if _, ok := dataSet[file]; !ok {
+							dataNames = append(dataNames, file)
+						}
 						dataSet[file] = data
 					}
 				} else {
 					// Convert the input to a byte buffer
 					data = []byte(*inputPtr)
+					dataNames = append(dataNames, "stdin")
 					dataSet["stdin"] = data
 				}
 			} else {
@@ -220,7 +226,8 @@ func main() {
 					element["flagSet"].(*flag.FlagSet))
 			}
 
-			for dataName, data := range dataSet {
+			for _, dataName := range dataNames {
+				data := dataSet[dataName]
 				if verbose {
 					fmt.Printf("\n%s:\n", dataName)
 				}
-- 
2.43.0


From a5b1cb7ca1f395326368ffce1fa16e2bc871daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 23/43] fix: markups and flags are handled in the same order
 every time

---
 json-dom.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/json-dom.go b/json-dom.go
index b425ce8..524fb44 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -13,6 +13,7 @@ import (
 	"github.com/andygello555/json-dom/jom/json_map"
 	"io/ioutil"
 	"os"
+	"sort"
 	"strings"
 	"unicode/utf8"
 )
@@ -36,12 +37,22 @@ func (s *Files) Set(value string) error {
 // Flag Type for a JsonPathScriptPair flag
 type JsonPathScriptPair map[string]string
 
+// Returns the JSON paths of the JsonPathScriptPair flag in lexicographical order
+func (jpscp *JsonPathScriptPair) Paths() []string {
+	paths := make([]string, 0, len(*jpscp))
+	for path := range *jpscp {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	return paths
+}
+
 // Returns the String representation of the JsonPathScriptPair flag
 func (jpscp *JsonPathScriptPair) String() string {
 	// a=b, c=d, ...
 	var b strings.Builder
-	for key, element := range *jpscp {
-		_, err := fmt.Fprintf(&b, "%v%c%v,", key, globals.KeyValuePairDelim, element)
+	for _, key := range jpscp.Paths() {
+		_, err := fmt.Fprintf(&b, "%v%c%v,", key, globals.KeyValuePairDelim, (*jpscp)[key])
 		if err != nil {
 			globals.FormatErr.Handle(err)
 		}
@@ -153,7 +164,13 @@ func main() {
 		if verbose {
 			fmt.Println("flags:")
 			const formatString = "\t%v = %v\n"
-			for flagKey, flagElement := range element {
+			flagKeys := make([]string, 0, len(element))
+			for flagKey := range element {
+				flagKeys = append(flagKeys, flagKey)
+			}
+			sort.Strings(flagKeys)
+			for _, flagKey := range flagKeys {
+				flagElement := element[flagKey]
 				if flagKey != "flagSet" {
 					switch flagKey {
 					case "path-scripts":
@@ -269,9 +286,9 @@ func main() {
 						jsonMap.Strip()
 					}
 
-					// Run the Markup for all paths
-					for path, script := range *pathScripts {
-						err = jsonMap.MarkupCode(path, *language, script)
+					// Run the Markup for all paths, in lexicographical order so that the result is the same each time
+					for _, path := range pathScripts.Paths() {
+						err = jsonMap.MarkupCode(path, *language, (*pathScripts)[path])
 						if err != nil {
 							globals.MarkupErr.Handle(err)
 						}
-- 
2.43.0


From 8e4a470d15ad6fc9b8691b579a1638237cbd7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 24/43] fix: the command line tool fails when its output could
 not be written

---
 globals/error.go |  1 +
 jom/jom.go       |  4 +++-
 json-dom.go      | 44 +++++++++++++++++++++++++++++++++-----------
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/globals/error.go b/globals/error.go
index fae2f76..fa467f9 100644
--- a/globals/error.go
+++ b/globals/error.go
@@ -30,6 +30,7 @@ var (
 	UnmarshalErr		= CliError{9, false, "The following data cannot be unmarshalled for the following reasons"}
 	EvaluationErr		= CliError{10, false, "EVAL ERROR"}
 	MarkupErr			= CliError{11, false, "MARKUP ERROR"}
+	WriteErr			= CliError{12, true, "A write error occurred"}
 )
 
 // Handles print of error details and exit codes of CliError.
diff --git a/jom/jom.go b/jom/jom.go
index 866ab95..68f473c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1447,7 +1447,9 @@ func Eval(jsonBytes []byte, verbose bool) (out []byte, err error) {
 	jsonMap.Run()
 
 	if verbose {
-		fmt.Println("\ngo map:", jsonMap.insides)
+		if _, err = fmt.Println("\ngo map:", jsonMap.insides); err != nil {
+			return out, err
+		}
 	}
 
 	// Marshal the output JSON
diff --git a/json-dom.go b/json-dom.go
index 524fb44..f90dbc8 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -7,7 +7,7 @@ import (
 	"fmt"
 	"github.com/andygello555/gotils/files"
 	_ "github.com/andygello555/json-dom/code/go"
-	_ "github.com/andygello555/json-dom/code/js"
+	"github.com/andygello555/json-dom/code/js"
 	"github.com/andygello555/json-dom/globals"
 	"github.com/andygello555/json-dom/jom"
 	"github.com/andygello555/json-dom/jom/json_map"
@@ -97,9 +97,27 @@ func (jpscp *JsonPathScriptPair) Set(value string) error {
 	return nil
 }
 
+// Writes to the standard output and remembers the first error that occurred whilst doing so.
+type output struct {
+	err error
+}
+
+// Writes the given bytes to the standard output.
+func (o *output) Write(p []byte) (n int, err error) {
+	n, err = os.Stdout.Write(p)
+	if err != nil && o.err == nil {
+		o.err = err
+	}
+	return n, err
+}
+
 // usage: json-dom { eval | markup [-language <language>] [-eval] [-strip] <key>:<value>,... } { -input <input> | -files <file>... } [-verbose]
 
 func main() {
+	// Everything which is printed goes through the same output, including the messages that are logged by scripts
+	stdout := new(output)
+	js.ExternalConsoleLogStdout = stdout
+
 	// Subcommands
 	subcommandMap := Subcommands{
 		"eval": map[string]interface{}{
@@ -162,7 +180,7 @@ func main() {
 
 		// Print flags if verbose
 		if verbose {
-			fmt.Println("flags:")
+			_, _ = fmt.Fprintln(stdout, "flags:")
 			const formatString = "\t%v = %v\n"
 			flagKeys := make([]string, 0, len(element))
 			for flagKey := range element {
@@ -176,12 +194,12 @@ func main() {
 					case "path-scripts":
 						fallthrough
 					case "files":
-						fmt.Printf(formatString, flagKey, flagElement)
+						_, _ = fmt.Fprintf(stdout, formatString, flagKey, flagElement)
 					case "verbose", "eval", "strip":
-						fmt.Printf(formatString, flagKey, *flagElement.(*bool))
+						_, _ = fmt.Fprintf(stdout, formatString, flagKey, *flagElement.(*bool))
 					default:
 						// Default just casts the pointer to a string pointer and takes the value at the location
-						fmt.Printf(formatString, flagKey, *flagElement.(*string))
+						_, _ = fmt.Fprintf(stdout, formatString, flagKey, *flagElement.(*string))
 					}
 				}
 			}
@@ -200,7 +218,7 @@ func main() {
 				var data []byte
 				if len(*filesPtr) != 0 {
 					if verbose {
-						fmt.Println("\nfiles:")
+						_, _ = fmt.Fprintln(stdout, "\nfiles:")
 					}
 					for _, file := range *filesPtr {
 						exists := files.IsFile(file)
@@ -212,7 +230,7 @@ func main() {
 								formatString += " (does not exist)"
 							}
 							formatString += "\n"
-							fmt.Printf(formatString, file)
+							_, _ = fmt.Fprintf(stdout, formatString, file)
 						}
 
 						// Throw an error if a file doesn't exist
@@ -246,7 +264,7 @@ func main() {
 			for _, dataName := range dataNames {
 				data := dataSet[dataName]
 				if verbose {
-					fmt.Printf("\n%s:\n", dataName)
+					_, _ = fmt.Fprintf(stdout, "\n%s:\n", dataName)
 				}
 				switch subcommand {
 				case "eval":
@@ -257,7 +275,7 @@ func main() {
 					}
 
 					// TODO: This is where saving to a destination file would come in
-					fmt.Println(string(eval))
+					_, _ = fmt.Fprintln(stdout, string(eval))
 				case "markup":
 					pathScripts := element["path-scripts"].(*JsonPathScriptPair)
 					language := element["language"].(*string)
@@ -304,13 +322,17 @@ func main() {
 						if err != nil {
 							globals.EvaluationErr.Handle(err)
 						}
-						fmt.Println(string(evalOut))
+						_, _ = fmt.Fprintln(stdout, string(evalOut))
 					} else {
-						fmt.Println(jsonMap)
+						_, _ = fmt.Fprintln(stdout, jsonMap)
 					}
 				}
 			}
 
+			// Don't report a success if any of the output was lost
+			if stdout.err != nil {
+				globals.WriteErr.Handle(stdout.err)
+			}
 			os.Exit(0)
 		}
 	}
-- 
2.43.0


From d5eaac3a59af87b3571864b8071a8c5a44b788ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 25/43] fix: scripts and filters see the keys of an object in
 the same order every time

---
 code/js/js.go | 16 +++++++---------
 jom/jom.go    |  9 +++------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 3694c64..ed09dae 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -204,8 +204,8 @@ func jsonPathSelector(scope json_map.JsonMapInt, call otto.FunctionCall) otto.Va
 	vmTemp := otto.New()
 
 	// Temp function to push a value to an array stored in the given variable name.
-	// This will first marshall the value into a JSON value in Go then parse the []byte to the VM which will use
-	// JSON.parse to parse the value and then push it to the array of the given name.
+	// This will first marshall the value into a JSON value in Go then run the []byte in the VM as a literal and then
+	// push it to the array of the given name.
 	pushValue := func(arrName string, value interface{}) {
 		var valueStr []byte
 		valueStr, err = json.Marshal(value)
@@ -213,9 +213,8 @@ func jsonPathSelector(scope json_map.JsonMapInt, call otto.FunctionCall) otto.Va
 			throw(fmt.Sprintf("cannot Marshal value: \"%v\"", value))
 		}
 		// Then push the value to the nodeSet array within the VM
-		currentName := fmt.Sprintf("%sCurrStr", arrName)
-		_ = vmTemp.Set(currentName, string(valueStr))
-		_, err = vmTemp.Run(fmt.Sprintf("%s.push(JSON.parse(%s))", arrName, currentName))
+		// NOTE the JSON value is run as a literal for the same reason as in createJom
+		_, err = vmTemp.Run(fmt.Sprintf("%s.push(%s)", arrName, string(valueStr)))
 		if err != nil {
 			throw(fmt.Sprintf("could not push current node: \"%v\", to %s", string(valueStr), arrName))
 		}
@@ -414,10 +413,9 @@ func createJom(jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
 
 	// Create a VM, parse the json string and get the value out of the VM
 	vm := otto.New()
-	if err := vm.Set("jsonString", jsonData); err != nil {
-		return otto.NullValue(), err
-	}
-	run, err = vm.Run("JSON.parse(jsonString)")
+	// NOTE the json string is run as a literal, and not given to JSON.parse, as the properties of the objects constructed by
+	// the latter are in a random order
+	run, err = vm.Run(fmt.Sprintf("(%s)", jsonData))
 	if err != nil {
 		return otto.NullValue(), err
 	}
diff --git a/jom/jom.go b/jom/jom.go
index 68f473c..46ca54b 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -255,14 +255,11 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			if err != nil {
 				return err
 			}
-			// Here we are just passing the literal string into the vm and parsing it to a JS value using JSON.parse
+			// Here we are just running the literal string in the vm to convert it to a JS value. JSON.parse is not used
+			// for this as the properties of the objects it constructs are in a random order
 			// Then setting the currentNode variable to be that value
-			err = vm.Set(globals.CurrentNodeLiteralVarName, string(literal))
-			if err != nil {
-				return err
-			}
 			var currentNodeValue otto.Value
-			currentNodeValue, err = vm.Run(fmt.Sprintf("JSON.parse(%s)", globals.CurrentNodeLiteralVarName))
+			currentNodeValue, err = vm.Run(fmt.Sprintf("(%s)", string(literal)))
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 671d84cf24c297d83785145fe61ed5a0a9d2da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 26/43] fix: the error of a filter is no longer replaced by
 that of a later key

---
 jom/jom.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 46ca54b..dcbe434 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -454,6 +454,7 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{})
 
 
 	// Iterate through the absolute path keys
+pathKeys:
 	for _, key := range path {
 		// StartEnd KeyTypes must be within a Slice key type so throw an error if so
 		if key.KeyType == json_map.StartEnd {
@@ -501,9 +502,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{})
 				var filterErr error
 				currValue, filterErr = filterRunner(m, filterExp, jsonMap, true, false)
 				if filterErr != nil {
-					// NOTE we don't set err otherwise, so that an error of an earlier key isn't forgotten
+					// NOTE we don't set err otherwise, so that an error of an earlier key isn't forgotten. No later keys
+					// are looked at as they would replace the filter's error
 					err = filterErr
-					break
+					break pathKeys
 				}
 			case json_map.First:
 				// Similar as with the wildcards we sort the keys alphabetically then set the value of the first, THAT
@@ -568,9 +570,10 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{})
 				var filterErr error
 				currValue, filterErr = filterRunner(arr, filterExp, jsonMap, false, false)
 				if filterErr != nil {
-					// NOTE we don't set err otherwise, so that an error of an earlier key isn't forgotten
+					// NOTE we don't set err otherwise, so that an error of an earlier key isn't forgotten. No later keys
+					// are looked at as they would replace the filter's error
 					err = filterErr
-					break
+					break pathKeys
 				}
 			case json_map.First:
 				err = globals.JsonPathError.FillError("Cannot recurse into an array")
-- 
2.43.0


From 228aa471832a55a55149478e06fdca3aeb703c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 27/43] fix: a map or array set in several places is no longer
 shared between them

---
 jom/jom.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index dcbe434..f401e41 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -117,6 +117,26 @@ func sortedKeys(m map[string]interface{}) []string {
 	return keys
 }
 
+// Returns a copy of the given value in which all maps and arrays are copies too.
+func copyTree(value interface{}) interface{} {
+	switch value.(type) {
+	case map[string]interface{}:
+		newMap := make(map[string]interface{}, len(value.(map[string]interface{})))
+		for key, element := range value.(map[string]interface{}) {
+			newMap[key] = copyTree(element)
+		}
+		return newMap
+	case []interface{}:
+		newArr := make([]interface{}, len(value.([]interface{})))
+		for i, element := range value.([]interface{}) {
+			newArr[i] = copyTree(element)
+		}
+		return newArr
+	default:
+		return value
+	}
+}
+
 // Evaluates the given JSON path filter expression on the given obj on the given json map. Returns a list of values of
 // all nodes which are satisfied by the given filter expression. Filter expressions are evaluated using the otto JS
 // interpreter so (pretty much) any valid javascript can be written within them as long as they return a boolean value.
@@ -730,6 +750,9 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 		Message string
 	}
 
+	// Whether the value has been set somewhere already
+	valueSet := false
+
 	// Set up the recursive function which will be run on all absolute paths
 	var recursiveTraversal func(remainingPath []json_map.AbsolutePathKey, currTree interface{}) interface{}
 	recursiveTraversal = func(remainingPath []json_map.AbsolutePathKey, currTree interface{}) interface{} {
@@ -760,6 +783,11 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					return newValue
 				}
+				// Maps and arrays are copied so that they aren't shared when the value is set in more than one place
+				if valueSet {
+					return copyTree(value)
+				}
+				valueSet = true
 				return value
 			}
 
@@ -1552,6 +1580,13 @@ func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices...
 	}
 	// Use the AddElems utility to add the value at the given indices
 	newArr := slices.AddElems(nodes, value, indices...)
+	// Maps and arrays are copied so that they aren't shared when the value is pushed to more than one index
+	slices.RemoveDuplicatesAndSort(&indices)
+	for i, idx := range indices {
+		if i > 0 && indices[0] >= 0 {
+			newArr[idx] = copyTree(value)
+		}
+	}
 
 	// Finally we set the same path we are given to be the newArr
 	jsonMap.MustSet(jsonPath, newArr)
-- 
2.43.0


From 18950410618814e1c266312612c3b78441e9a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 28/43] fix: setValues keeps the arrays and nulls of the value
 it is given

The value was converted in the way that values are printed: arrays became
objects keyed by index, and null or undefined members became objects. Values
that cannot be converted killed the process (a circular value) or the whole
evaluation (a getter that throws) where the script can now catch the error.
---
 code/js/js.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index ed09dae..ca95135 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -12,7 +12,6 @@ import (
 	"github.com/robertkrimen/otto"
 	"io"
 	"os"
-	"reflect"
 	"strings"
 	"time"
 )
@@ -297,12 +296,23 @@ func jsonPathSelector(scope json_map.JsonMapInt, call otto.FunctionCall) otto.Va
 			throw("setValue takes a single argument")
 		}
 		value := call.Argument(0)
-		valueGo := toGo(value)
-
-		// Because the value returned by toGo can indeed by a pointer we need to do some suave reflect method calls to
-		// get the indirect value of the pointer if the Kind of value returned is indeed a pointer
-		if reflect.ValueOf(valueGo).Kind() == reflect.Ptr {
-			valueGo = reflect.Indirect(reflect.ValueOf(valueGo)).Interface()
+		var valueGo interface{}
+		if value.IsObject() {
+			// Objects are stringified within the VM, in the same way as json.trail is, so that the arrays and the nulls
+			// within them are kept as they are
+			var valueString otto.Value
+			valueString, err = call.Otto.Call("JSON.stringify", nil, value)
+			if err != nil {
+				throw(err.Error())
+			}
+			if !valueString.IsString() {
+				throw(fmt.Sprintf("\"%v\" is not JSON stringifiable", value))
+			}
+			if err = json.Unmarshal([]byte(valueString.String()), &valueGo); err != nil {
+				throw(err.Error())
+			}
+		} else {
+			valueGo = toGo(value)
 		}
 
 		// Then we call SetAbsolutePaths
-- 
2.43.0


From 00a0765b876cf6e067ecaefd459fd47ed7b0fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 29/43] fix: printing a circular object no longer kills the
 process

References back to an object that is being printed were followed for ever, until
the stack overflowed. They are printed as [Circular] now. The error of a getter
that fails is thrown within the script, like that of any other expression, so
that it can be caught there and is reported along with the scope of the script.
---
 code/js/js.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index ca95135..0576eeb 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,13 +28,18 @@ var (
 )
 
 // Used to map a JS Object from Otto into a map so that it can be used.
-func traverseObject(object *otto.Object) *map[string]interface{} {
+//
+// The objects that are being traversed already are given as the parents. References back to one of these are mapped to
+// "[Circular]". Getters that fail are thrown within the given VM.
+func traverseObject(vm *otto.Otto, object *otto.Object, parents map[otto.Object]bool) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
+	parents[*object] = true
+	defer delete(parents, *object)
 
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
 		if err != nil {
-			panic(err)
+			panic(vm.MakeCustomError("Error", err.Error()))
 		}
 
 		var realVal interface{} = val
@@ -56,15 +61,19 @@ func traverseObject(object *otto.Object) *map[string]interface{} {
 			realVal = boolean
 		} else if val.IsObject() {
 			obj := val.Object()
-			objectMapInner := traverseObject(obj)
-			realVal = *objectMapInner
+			if parents[*obj] {
+				realVal = "[Circular]"
+			} else {
+				objectMapInner := traverseObject(vm, obj, parents)
+				realVal = *objectMapInner
+			}
 		}
 		objectMap[key] = realVal
 	}
 	return &objectMap
 }
 
-func toGo(value otto.Value) (out interface{}) {
+func toGo(vm *otto.Otto, value otto.Value) (out interface{}) {
 	var err error
 	if value.IsDefined() {
 		switch true {
@@ -82,7 +91,7 @@ func toGo(value otto.Value) (out interface{}) {
 			}
 		case value.IsObject():
 			obj := value.Object()
-			out = traverseObject(obj)
+			out = traverseObject(vm, obj, make(map[otto.Object]bool))
 		case value.IsNull():
 			out = nil
 		case value.IsFunction():
@@ -116,7 +125,7 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 	argList := call.ArgumentList
 
 	for i, arg := range argList {
-		val := toGo(arg)
+		val := toGo(call.Otto, arg)
 		if val == nil {
 			_, _ = fmt.Fprint(&b, "undefined")
 		} else {
@@ -312,7 +321,7 @@ func jsonPathSelector(scope json_map.JsonMapInt, call otto.FunctionCall) otto.Va
 				throw(err.Error())
 			}
 		} else {
-			valueGo = toGo(value)
+			valueGo = toGo(call.Otto, value)
 		}
 
 		// Then we call SetAbsolutePaths
-- 
2.43.0


From 5659c8b46c4cfc0e4c3b53a2080b46008bff2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 30/43] fix: absolute paths of unwrapped values lead to the
 values

The path of a value within an unwrapped array had an empty key between the path
of the array and the index of the value, so looking it up panicked.
---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index f401e41..63cca6f 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -716,7 +716,7 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 			// We unwrap any arrays returned from the finders
 			for i, v := range value.Value.([]interface{}) {
 				// We have to amend the absolute paths for the nodes by adding on an IndexKey at each iteration
-				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute) + 1)
+				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute), len(value.Absolute) + 1)
 				copy(amendedAbsolute, value.Absolute)
 				amendedAbsolute = append(amendedAbsolute, json_map.AbsolutePathKey{
 					KeyType: json_map.IndexKey,
-- 
2.43.0


From daa8ca145ca2a7f7e610459295bea2deab413328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:14 +0000
Subject: [PATCH 31/43] fix: each dot after an ellipsis descends once more

The descents of a path like $....key were alternatives to each other, so that
the values one level down were returned once for every dot.
---
 jom/json_map/json_path_parse.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 0827599..79dc48a 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -249,10 +249,20 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		}
 		//fmt.Println("nextPaths:", nextPaths, "token:", string(token), "togo:", string(togo))
 
-		// Add the nextPath variable to the end of all absolute paths
-		errs = absolutePaths.AddToAll(nil, false, nextPaths...)
-		if errs != nil {
-			return nil, globals.JsonPathError.FillFromErrors(errs)
+		// Add the nextPath variable to the end of all absolute paths. The keys of a dot token come one after the other,
+		// whereas the keys of any other token are alternatives to each other
+		toAdd := [][]AbsolutePathKey{nextPaths}
+		if next == &dot {
+			toAdd = make([][]AbsolutePathKey, 0)
+			for i := range nextPaths {
+				toAdd = append(toAdd, nextPaths[i:i + 1])
+			}
+		}
+		for _, keys := range toAdd {
+			errs = absolutePaths.AddToAll(nil, false, keys...)
+			if errs != nil {
+				return nil, globals.JsonPathError.FillFromErrors(errs)
+			}
 		}
 	} else {
 		next = &end
-- 
2.43.0


From b99920a35152700f7464bdfdbcbbb262a8799e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 32/43] fix: a JSON path can have more than one filter
 expression

A filter expression went on until the end of the last one in the path, so that
paths with several of them could never be evaluated.
---
 jom/json_map/json_path_parse.go | 52 +++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 79dc48a..aeec83a 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -55,7 +55,7 @@ var (
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
 				KeyType: Filter,
-				Value:   string(regexp.MustCompile("(\\[\\?\\(|\\)])").ReplaceAll(token, []byte(""))),
+				Value:   string(token[len("[?("):len(token) - len(")]")]),
 			}}
 			return absolutePathKeys, nil
 		},
@@ -214,6 +214,52 @@ func init() {
 	}
 }
 
+// Finds the location of the token of the state within the characters to go.
+//
+// A filter expression ends where all the brackets that it opened are closed. It cannot be found by the regular expression
+// alone as the longest match goes on until the end of the last filter expression in the JSON path.
+func (s *state) find(togo []byte) []int {
+	occurrences := s.tokenRegex.FindIndex(togo)
+	if s != &filter || len(occurrences) == 0 || occurrences[0] != 0 {
+		return occurrences
+	}
+
+	var brackets []byte
+	var quote byte
+	for i := 0; i < occurrences[1]; i++ {
+		char := togo[i]
+		switch {
+		case char == '\\':
+			// Skip the escaped character
+			i++
+		case quote != 0:
+			if char == quote {
+				quote = 0
+			}
+		case char == '"' || char == '\'':
+			quote = char
+		case char == '(':
+			brackets = append(brackets, ')')
+		case char == '[':
+			brackets = append(brackets, ']')
+		case char == '{':
+			brackets = append(brackets, '}')
+		case char == ')' || char == ']' || char == '}':
+			if brackets[len(brackets) - 1] != char {
+				return occurrences
+			}
+			if brackets = brackets[:len(brackets) - 1]; len(brackets) == 0 {
+				// This is only the end if it is preceded by the bracket that closes the expression
+				if togo[i - 1] == ')' {
+					return []int{0, i + 1}
+				}
+				return occurrences
+			}
+		}
+	}
+	return occurrences
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -227,7 +273,7 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		// Find which state is next by checking the regex of each possible state on the characters to go
 		for _, possibleState := range possibleStates {
 			// If possible state's regex matches the start of the characters to go then that is the next state
-			if occurrences := possibleState.tokenRegex.FindIndex(togo); len(occurrences) != 0 && occurrences[0] == 0 {
+			if occurrences := possibleState.find(togo); len(occurrences) != 0 && occurrences[0] == 0 {
 				next = possibleState
 				token = togo[occurrences[0]:occurrences[1]]
 				break
@@ -291,7 +337,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// Peak all the bytes until the end of the buffer
 		next, _ := jsonPathReader.Peek(jsonPathReader.Size())
 		// Always try to find the longest
-		occurrences := currentState.tokenRegex.FindIndex(next)
+		occurrences := currentState.find(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-- 
2.43.0


From 38f17a186c8067efe4cff7b2ad5c1f15d6849bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 33/43] fix: quotes of the other kind within the string
 literals of filter expressions

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 63cca6f..fdafcf0 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -145,7 +145,7 @@ func copyTree(value interface{}) interface{} {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("['\"]([^\\\\\"']|\\\\.)*['\"]")
+	stringLiterals := regexp.MustCompile("\"([^\\\\\"]|\\\\.)*\"|'([^\\\\']|\\\\.)*'")
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
 	// Get the locations of the start and end of all string literals
-- 
2.43.0


From d15c9822f21a1862f82c2600b4d50ad0cfc39ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 34/43] fix: text outside of ASCII in filter expressions that
 refer to other paths

---
 jom/jom.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index fdafcf0..20adbf3 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -222,7 +222,15 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Replace all the occurrences of any JSON path expression within the filter expression with the
 	// literal evaluation of each JSON path calculated above
 	if len(jsonPathIndices) > 0 {
-		filterExp = []byte(str.ReplaceCharIndexRange(string(filterExp), jsonPathIndices, jsonPathLiterals...))
+		// (done in terms of bytes so that any characters outside of ASCII are kept as they are)
+		replaced := make([]byte, 0, len(filterExp))
+		last := 0
+		for i, jsonPathLoc := range jsonPathIndices {
+			replaced = append(replaced, filterExp[last:jsonPathLoc[0]]...)
+			replaced = append(replaced, jsonPathLiterals[i]...)
+			last = jsonPathLoc[1]
+		}
+		filterExp = append(replaced, filterExp[last:]...)
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
 		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
-- 
2.43.0


From 0f4d5a4281f8409e3d47456455bdebc066177569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 35/43] fix: report thrown values that cannot be converted to a
 string

The VM panics with a private value when the conversion of what a script or a
filter has thrown fails. For scripts the error named neither cause nor scope,
for filters the panic ended the process.
---
 code/js/js.go    | 12 ++++++++++--
 globals/const.go |  2 ++
 jom/jom.go       |  9 +++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 0576eeb..8a9933a 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -524,8 +524,16 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 				)
 				return
 			}
-			// Another error that we should panic for
-			panic(caught)
+			switch caught.(type) {
+			case error, string:
+				// Another error that we should panic for
+				panic(caught)
+			}
+			// The VM panics with a value of its own when it fails to convert what the script has thrown to a string
+			data, err = nil, globals.ScriptError.FillError(
+				globals.InconvertibleThrow,
+				fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script),
+			)
 		}
 	}()
 
diff --git a/globals/const.go b/globals/const.go
index 3e76c1f..23b4b87 100644
--- a/globals/const.go
+++ b/globals/const.go
@@ -18,6 +18,8 @@ const (
 	ModifiedTrailValueVarName     = "__modifiedTrail__"
 	// The maximum depth of calls within a script or a filter. Any deeper causes a RangeError.
 	MaxCallDepth                  = 10000
+	// The text of the error for a thrown value of which the conversion to a string fails.
+	InconvertibleThrow            = "a value that cannot be converted to a string was thrown"
 )
 
 // These are global variables that can be changed.
diff --git a/jom/jom.go b/jom/jom.go
index 20adbf3..4d29171 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -318,8 +318,13 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 						)
 						return
 					}
-					// Another error that we should panic for
-					panic(caught)
+					switch caught.(type) {
+					case error, string:
+						// Another error that we should panic for
+						panic(caught)
+					}
+					// The VM panics with a value of its own when it fails to convert what was thrown to a string
+					err = errors.New(globals.InconvertibleThrow)
 				}
 			}()
 
-- 
2.43.0


From 585c9e7433774c82679059ff278e7b413052e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 36/43] fix: always report the same unsupported script

Scripts were looked for in map iteration order, so that the error for a document
with several unsupported scripts differed from run to run.
---
 jom/jom.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 4d29171..986a1bc 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1267,7 +1267,9 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	jsonMap.traversal.script = make(map[string]interface{})
 	jsonMap.traversal.nonScript = make(map[string]interface{})
 
-	for key, element := range *(jsonMap.GetInsides()) {
+	// The fields are visited in lexicographical order so that the unsupported script that is reported is always the same
+	for _, key := range sortedKeys(*jsonMap.GetInsides()) {
+		element := (*jsonMap.GetInsides())[key]
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse down the inner map
-- 
2.43.0


From bbdce713856d6cdce13741b5117a3f29d6de7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 37/43] fix: report a textual go script as an unsupported
 language

It failed with an internal interface conversion error that names neither the
language nor the script.
---
 code/code.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/code.go b/code/code.go
index 3e70371..6438677 100644
--- a/code/code.go
+++ b/code/code.go
@@ -86,7 +86,8 @@ func NewFrom(from interface{}) (code Code, ok bool) {
 			script = strings.Join(strings.Split(script, "\n")[1:], "\n")
 			code.Script = script
 
-			if !CheckIfSupported(shebangScriptLang) {
+			// Go callbacks can be given as a func only
+			if !CheckIfSupported(shebangScriptLang) || ShebangScriptLang(shebangScriptLang) == GO {
 				// We are going to panic here as the script is unsupported
 				// NOTE this will only panic when the shebang script is between the shortest and the longest supported lengths
 				panic(globals.UnsupportedScriptLang.FillError(shebangScriptLang, fmt.Sprintf(globals.ScriptErrorFormatString, globals.AnonymousScriptPath, script)))
-- 
2.43.0


From a5eaaacc4485c1df21084d1c2adc2ac0ebd328a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:54 +0000
Subject: [PATCH 38/43] fix: name the scope of console calls made by eval,
 functions and built-ins

---
 code/js/js.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index 8a9933a..3492dc7 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -120,7 +120,15 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 		}
 		callLocation = fmt.Sprintf("<%s>", get.String())
 	}
-	_, _ = fmt.Fprintln(&out, "call from:", strings.Replace(call.CallerLocation(), globals.AnonymousScriptPath, callLocation, -1))
+	location := call.CallerLocation()
+	if strings.Contains(location, globals.AnonymousScriptPath) {
+		location = strings.Replace(location, globals.AnonymousScriptPath, callLocation, -1)
+	} else {
+		// Calls that were not made straight from the source of the script (e.g. by eval, a Function, or a built-in such
+		// as forEach) have a location that does not mention the script
+		location = fmt.Sprintf("%s in %s", location, callLocation)
+	}
+	_, _ = fmt.Fprintln(&out, "call from:", location)
 	var b strings.Builder
 	argList := call.ArgumentList
 
-- 
2.43.0


From 439a501182b4f30082ff8a696aabd0f71d463c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:09 +0000
Subject: [PATCH 39/43] fix: name the script whose builtins were overridden

---
 code/js/js.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index 3492dc7..790274f 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -535,7 +535,10 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 			switch caught.(type) {
 			case error, string:
 				// Another error that we should panic for
-				panic(caught)
+				panic(globals.ScriptError.FillError(
+					fmt.Sprintf("%v", caught),
+					fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script),
+				))
 			}
 			// The VM panics with a value of its own when it fails to convert what the script has thrown to a string
 			data, err = nil, globals.ScriptError.FillError(
-- 
2.43.0


From da215a2b95f920a08b65e7e548cbabfe3ad4a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:32 +0000
Subject: [PATCH 40/43] fix: return an error when the interpreter fails on a
 filter

---
 jom/jom.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 986a1bc..524a3ae 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -320,11 +320,13 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 					}
 					switch caught.(type) {
 					case error, string:
-						// Another error that we should panic for
-						panic(caught)
+						// The VM itself has failed. Filters are run by the goroutines of the finders so this must not
+						// panic any further
+						err = errors.New(fmt.Sprintf("%v", caught))
+					default:
+						// The VM panics with a value of its own when it fails to convert what was thrown to a string
+						err = errors.New(globals.InconvertibleThrow)
 					}
-					// The VM panics with a value of its own when it fails to convert what was thrown to a string
-					err = errors.New(globals.InconvertibleThrow)
 				}
 			}()
 
-- 
2.43.0


From e77c7341aad7550f8ccb4450198abcd11c8e5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:06 +0000
Subject: [PATCH 41/43] fix: report callbacks which neither return nor panic
 with a value

---
 code/go/go.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index c2e13fd..ed024ca 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -4,6 +4,7 @@
 package _go
 
 import (
+	"errors"
 	"fmt"
 	"github.com/andygello555/json-dom/code"
 	"github.com/andygello555/json-dom/jom/json_map"
@@ -38,10 +39,16 @@ func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.Jso
 
 	// Construct a wrapper around the callback which will write to the interrupts channel once finished
 	callbackSafe := func() {
+		returned := false
 		defer func() {
+			caught := recover()
+			if caught == nil && !returned {
+				// A panic with the value nil, or an exit of the goroutine
+				caught = errors.New("the callback did not return")
+			}
 			// Here we catch any panics that may have happened in the callback and add them to the interrupts channel
 			// so they will re-panic in the outer scope
-			if caught := recover(); caught != nil {
+			if caught != nil {
 				interrupts <- func() bool {
 					panic(caught)
 				}
@@ -54,6 +61,7 @@ func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.Jso
 			}
 		}()
 		callback(jsonMap)
+		returned = true
 	}
 
 	// To stop infinite loops start a timer which will panic once the timer stops and be caught in a deferred func
-- 
2.43.0


From 3154d7bde83f5ea350e19cffba1950f1ea51f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:01 +0000
Subject: [PATCH 42/43] fix: forget the previous document when another one is
 read

A JsonMap which had held a root array lost the next object it read, and reported
no error for malformed text. One that read a root array kept the keys of its
previous document.
---
 jom/jom.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 524a3ae..8efbc92 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1437,18 +1437,18 @@ func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
 		if strings.Contains(err.Error(), "value of type []interface {} is not assignable to type map[string]interface {}") {
-			jsonMap.Array = true
 			// Create an "array" key within jsonMap.insides that will contain the unmarshalled array
 			// When Marshalling into JSON check if this hack was used and deal with it accordingly
 			var rootArray []interface{}
 			if err = hjson.Unmarshal(jsonBytes, &rootArray); err == nil {
-				jsonMap.insides["array"] = rootArray
+				jsonMap.Array = true
+				jsonMap.insides = map[string]interface{}{"array": rootArray}
 			}
 		}
-		if !jsonMap.Array {
-			return err
-		}
+		return err
 	}
+	// The JsonMap may have had an array at its root before
+	jsonMap.Array = false
 	return nil
 }
 
-- 
2.43.0


From c009271f93248d70705797980549c60ff1160a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:01 +0000
Subject: [PATCH 43/43] fix: keep the root array of a JsonMap in its clone

A clone of a JsonMap with an array at its root was marshalled as an object with
an "array" key.
---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index 8efbc92..0c88191 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -86,6 +86,7 @@ func (jsonMap *JsonMap) Clone(clear bool) json_map.JsonMapInt {
 		return &JsonMap{
 			insides:   jsonMap.insides,
 			traversal: jsonMap.traversal,
+			Array:     jsonMap.Array,
 		}
 	}
 	cleared := New()
-- 
2.43.0

