From a84ea3a7f2f9bab9deba198395c5b247914c5543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:29 +0000
Subject: [PATCH 01/24] fix: count references under the lock of the shared
 ConstraintMap

Len had a value receiver: it copied the mutex and read the map without
holding it, racing with SetReference.
---
 reference.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference.go b/reference.go
index 937eb9a..b9af3c0 100644
--- a/reference.go
+++ b/reference.go
@@ -21,8 +21,11 @@ type ConstraintMap struct {
 }
 
 // Len returns the number of references stored in this ConstraintMap
-func (cm ConstraintMap) Len() int {
-	return len(cm.refmap())
+func (cm *ConstraintMap) Len() int {
+	cm.lock.Lock()
+	defer cm.lock.Unlock()
+
+	return len(cm.refs)
 }
 
 func (cm *ConstraintMap) refmap() map[string]Constraint {
-- 
2.43.0


From b6760c4ac80146935552a3265ef08c2a7be70b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:05 +0000
Subject: [PATCH 02/24] fix: validate what an optional field holds also for
 pattern and additional properties

A struct field of a Maybe type that is not a declared property was handed
to the constraint as the Maybe struct itself, so that a struct was rejected
where the equivalent map is accepted.
---
 object.go | 57 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/object.go b/object.go
index 478ffb8..ec1b10f 100644
--- a/object.go
+++ b/object.go
@@ -320,6 +320,30 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+// unwrapMaybe returns the value to validate, and whether there is one: for
+// a Maybe value that is what it holds, provided that it has been initialized
+func unwrapMaybe(pval reflect.Value) (reflect.Value, bool) {
+	switch {
+	case pval == zeroval:
+		// If we got a zeroval, we're done for.
+		return pval, false
+	case pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif):
+		// If we have a Maybe value, we check the Valid() flag
+		mv := pval.MethodByName("Valid")
+		out := mv.Call(nil)
+		if !out[0].Bool() {
+			return pval, false
+		}
+		// Swap out pval to be the value pointed to by the Maybe value
+		mv = pval.MethodByName("Value")
+		out = mv.Call(nil)
+		return out[0], true
+	default:
+		// Everything else, we have *something*
+		return pval, true
+	}
+}
+
 // Validate validates the given value against this ObjectConstraint
 func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	if pdebug.Enabled {
@@ -375,28 +399,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			pdebug.Printf("Validating property '%s'", pname)
 		}
 
-		pval := o.getProp(rv, pname)
-		propExists := false
-
-		switch {
-		case pval == zeroval:
-			// If we got a zeroval, we're done for.
-		case pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif):
-			// If we have a Maybe value, we check the Valid() flag
-			mv := pval.MethodByName("Valid")
-			out := mv.Call(nil)
-			if out[0].Bool() {
-				propExists = true
-				// Swap out pval to be the value pointed to by the Maybe value
-				mv = pval.MethodByName("Value")
-				out = mv.Call(nil)
-				pval = out[0]
-			}
-		default:
-			// Everything else, we have *something*
-			propExists = true
-		}
-
+		pval, propExists := unwrapMaybe(o.getProp(rv, pname))
 		if !propExists {
 			if pdebug.Enabled {
 				pdebug.Printf("Property '%s' does not exist", pname)
@@ -450,7 +453,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			}
 			// No need to check if this pname exists, as we're taking
 			// this from "premain"
-			pval := o.getProp(rv, pname)
+			pval, ok := unwrapMaybe(o.getProp(rv, pname))
+			if !ok {
+				continue
+			}
 
 			delete(premain, pname)
 			pseen[pname] = struct{}{}
@@ -467,7 +473,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 
 		for pname := range premain {
-			pval := o.getProp(rv, pname)
+			pval, ok := unwrapMaybe(o.getProp(rv, pname))
+			if !ok {
+				continue
+			}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
-- 
2.43.0


From f4bb03f0e0010778631f095f3fac6f165dcae845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:28 +0000
Subject: [PATCH 03/24] fix: read pattern properties under the lock during
 validation

Validate ranged over the map that PatternProperties writes to, without the
lock: a data race, and a crash when a pattern was added meanwhile.
---
 object.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index ec1b10f..57c75ea 100644
--- a/object.go
+++ b/object.go
@@ -388,10 +388,14 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	// Now, for all known constraints, validate the prop
 	// create a copy of properties so that we don't have to keep the lock
 	propdefs := make(map[string]Constraint)
+	patdefs := make(map[*regexp.Regexp]Constraint)
 	o.proplock.Lock()
 	for pname, c := range o.properties {
 		propdefs[pname] = c
 	}
+	for pat, c := range o.patternProperties {
+		patdefs[pat] = c
+	}
 	o.proplock.Unlock()
 
 	for pname, c := range propdefs {
@@ -437,7 +441,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
-	for pat, c := range o.patternProperties {
+	for pat, c := range patdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
-- 
2.43.0


From 1099b24fade7583786cdd9b534220621f9903cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:30 +0000
Subject: [PATCH 04/24] fix: make the verdict independent of map iteration
 order

A property matching several patterns was checked only against whichever
pattern came first, and defaults filled in along the way could be seen by
some constraints or not depending on the order.
---
 object.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/object.go b/object.go
index 57c75ea..93df92c 100644
--- a/object.go
+++ b/object.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"reflect"
 	"regexp"
+	"sort"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -320,6 +321,15 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+func sortedNames(m map[string]struct{}) []string {
+	l := make([]string, 0, len(m))
+	for name := range m {
+		l = append(l, name)
+	}
+	sort.Strings(l)
+	return l
+}
+
 // unwrapMaybe returns the value to validate, and whether there is one: for
 // a Maybe value that is what it holds, provided that it has been initialized
 func unwrapMaybe(pval reflect.Value) (reflect.Value, bool) {
@@ -398,7 +408,16 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 	o.proplock.Unlock()
 
-	for pname, c := range propdefs {
+	// Go through the properties in a fixed order: constraints may fill in
+	// default values, which others can see
+	pnames := make([]string, 0, len(propdefs))
+	for pname := range propdefs {
+		pnames = append(pnames, pname)
+	}
+	sort.Strings(pnames)
+
+	for _, pname := range pnames {
+		c := propdefs[pname]
 		if pdebug.Enabled {
 			pdebug.Printf("Validating property '%s'", pname)
 		}
@@ -441,11 +460,20 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
-	for pat, c := range patdefs {
+	// A property must satisfy every pattern that it matches
+	pats := make([]*regexp.Regexp, 0, len(patdefs))
+	for pat := range patdefs {
+		pats = append(pats, pat)
+	}
+	sort.Slice(pats, func(i, j int) bool { return pats[i].String() < pats[j].String() })
+
+	extra := sortedNames(premain)
+	for _, pat := range pats {
+		c := patdefs[pat]
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
-		for pname := range premain {
+		for _, pname := range extra {
 			if !pat.MatchString(pname) {
 				if pdebug.Enabled {
 					pdebug.Printf("Property '%s' does not match pattern...", pname)
@@ -476,7 +504,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			return errors.New("additional properties are not allowed")
 		}
 
-		for pname := range premain {
+		for _, pname := range sortedNames(premain) {
 			pval, ok := unwrapMaybe(o.getProp(rv, pname))
 			if !ok {
 				continue
@@ -487,7 +515,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
-	for pname := range pseen {
+	for _, pname := range sortedNames(pseen) {
 		if deps := o.GetPropDependencies(pname); len(deps) > 0 {
 			if pdebug.Enabled {
 				pdebug.Printf("Property '%s' has dependencies", pname)
-- 
2.43.0


From eba48250d03440dc6446fde9acd0ac8a8a25979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:58 +0000
Subject: [PATCH 05/24] fix: report defaults that cannot be stored instead of
 panicking

Storing a default into a nil map, a map or field of another type, or a
struct passed by value panicked, and a null default deleted the map entry
instead of storing it.
---
 object.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/object.go b/object.go
index 93df92c..0bc4a5d 100644
--- a/object.go
+++ b/object.go
@@ -241,12 +241,22 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 
 	switch rv.Kind() {
 	case reflect.Map:
-		rv.SetMapIndex(reflect.ValueOf(pname), reflect.ValueOf(val))
+		if rv.IsNil() {
+			return errors.New("setProp: cannot store into a nil map")
+		}
+		dv := reflect.ValueOf(val)
+		if !dv.IsValid() { // the default is null; don't delete the entry
+			dv = reflect.Zero(rv.Type().Elem())
+		}
+		if !dv.Type().AssignableTo(rv.Type().Elem()) {
+			return errors.New("setProp: cannot store a " + dv.Type().String() + " into a " + rv.Type().String())
+		}
+		rv.SetMapIndex(reflect.ValueOf(pname), dv)
 		return nil
 	case reflect.Struct:
 		spvm := rv.MethodByName("SetPropValue")
 		if spvm != zeroval {
-			out := spvm.Call([]reflect.Value{reflect.ValueOf(pname), reflect.ValueOf(val)})
+			out := spvm.Call([]reflect.Value{reflect.ValueOf(pname), reflect.ValueOf(&val).Elem()})
 			if !out[0].IsNil() {
 				return out[0].Interface().(error)
 			}
@@ -258,6 +268,10 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 			return errors.New("setProp: could not find field '" + pname + "'")
 		}
 
+		if val == nil {
+			return errors.New("setProp: cannot store null into field '" + pname + "'")
+		}
+
 		// Usability: If you specify `Default(10)` on an int64 value,
 		// it doesn't work. But these values are compatible. We should
 		// do our best to align them
@@ -271,6 +285,9 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
 			mv = f.Addr().MethodByName("Set")
 		default:
+			if !f.CanSet() || !dv.Type().AssignableTo(f.Type()) {
+				return errors.New("setProp: cannot store a " + dv.Type().String() + " into field '" + pname + "'")
+			}
 			f.Set(dv)
 			return nil
 		}
-- 
2.43.0


From cec398863fcff0f0036f8aefe2b3b574aeee7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:42 +0000
Subject: [PATCH 06/24] fix: report failed and short writes of generated code

Process ignored the result of the write and returned success although the
output was incomplete.
---
 generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 47d5e17..33bd0f1 100644
--- a/generator.go
+++ b/generator.go
@@ -113,7 +113,13 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		os.Stderr.Write(buf.Bytes())
 		return err
 	}
-	out.Write(fsrc)
+	n, err := out.Write(fsrc)
+	if err != nil {
+		return err
+	}
+	if n < len(fsrc) {
+		return io.ErrShortWrite
+	}
 	return nil
 }
 
-- 
2.43.0


From d72097e9a0029f81da1fcc7c013c755a00dd987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 07/24] fix: leave the validators and the caller's list alone
 when generating code

Process stored generated names in unnamed validators, so that a later
generation printed them under names from another list, and sorted the
caller's slice in place. Both also raced with concurrent use.
---
 generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 33bd0f1..0087a51 100644
--- a/generator.go
+++ b/generator.go
@@ -37,6 +37,8 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	refs := map[string]Constraint{}
 	refnames := []string{}
 	valnames := []string{}
+	// naming and sorting must not show in what the caller passed to us
+	validators = append([]*JSVal(nil), validators...)
 	for i, v := range validators {
 		for rname, rc := range v.refs {
 			if _, ok := refs[rname]; ok {
@@ -47,7 +49,10 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		}
 
 		if v.Name == "" {
-			v.Name = fmt.Sprintf("V%d", i)
+			named := *v
+			named.Name = fmt.Sprintf("V%d", i)
+			v = &named
+			validators[i] = v
 		}
 		valnames = append(valnames, v.Name)
 	}
-- 
2.43.0


From f4f0ce2eb624e44473a21ba0ec2a27055ad0b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:45 +0000
Subject: [PATCH 08/24] fix: read the reference map under its lock when
 generating code

Validation may initialise the map at the same time.
---
 generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator.go b/generator.go
index 0087a51..088750f 100644
--- a/generator.go
+++ b/generator.go
@@ -40,6 +40,7 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	// naming and sorting must not show in what the caller passed to us
 	validators = append([]*JSVal(nil), validators...)
 	for i, v := range validators {
+		v.lock.Lock()
 		for rname, rc := range v.refs {
 			if _, ok := refs[rname]; ok {
 				continue
@@ -47,6 +48,7 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 			refs[rname] = rc
 			refnames = append(refnames, rname)
 		}
+		v.lock.Unlock()
 
 		if v.Name == "" {
 			named := *v
-- 
2.43.0


From 99eb48c14af9f347b3416ebf51ae35e382932181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:47 +0000
Subject: [PATCH 09/24] fix: generate the same code whatever the map iteration
 order

When the root constraint is registered under several reference names, the
generated code named whichever came first in the map.
---
 generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 088750f..5c7ed8a 100644
--- a/generator.go
+++ b/generator.go
@@ -156,8 +156,13 @@ func generateValidatorCode(ctx *genctx, out io.Writer, v *JSVal) error {
 		fmt.Fprintf(out, ".\nSetConstraintMap(%s)", cmname)
 	}
 
-	for rname, rc := range ctx.refs {
-		if v.root == rc {
+	refnames := make([]string, 0, len(ctx.refs))
+	for rname := range ctx.refs {
+		refnames = append(refnames, rname)
+	}
+	sort.Strings(refnames)
+	for _, rname := range refnames {
+		if v.root == ctx.refs[rname] {
 			fmt.Fprintf(out, ".\nSetRoot(%s)", ctx.refnames[rname])
 			found = true
 			break
-- 
2.43.0


From d79dcf2cff5a13d5f6e005f4d8eb6fdb0ac56345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:48 +0000
Subject: [PATCH 10/24] fix: report constraints that code cannot be generated
 for

Constraints of other types, such as a bare enumeration, were silently
printed as nothing, which for a reference still gives code that parses.
---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index 5c7ed8a..b07f19c 100644
--- a/generator.go
+++ b/generator.go
@@ -242,6 +242,8 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateStringCode(ctx, buf, c.(*StringConstraint)); err != nil {
 			return err
 		}
+	default:
+		return fmt.Errorf("cannot generate code for constraint of type %T", c)
 	}
 
 	s := buf.String()
@@ -509,6 +511,7 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 		fmt.Fprintf(out, ".\nPositionalItems([]%s.Constraint{\n", ctx.pkgname)
 		for _, ccc := range cc {
 			if err := generateCode(ctx, out, ccc); err != nil {
+				return err
 			}
 			fmt.Fprintf(out, ",\n")
 		}
-- 
2.43.0


From b630864e8178dbd5e98002e51bbad415dd015845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:50 +0000
Subject: [PATCH 11/24] fix: return an error for values that code cannot be
 generated for

A default of an integer that is not a float64, an unsigned number in an
enumeration and a null in an enumeration made the generator panic, which
a schema can provoke in the playground server.
---
 generator.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index b07f19c..fe59b1f 100644
--- a/generator.go
+++ b/generator.go
@@ -306,7 +306,17 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%d)", int(c.DefaultValue().(float64)))
+		rv := reflect.ValueOf(c.DefaultValue())
+		switch rv.Kind() {
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			fmt.Fprintf(out, ".Default(%d)", rv.Int())
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			fmt.Fprintf(out, ".Default(%d)", rv.Uint())
+		case reflect.Float32, reflect.Float64:
+			fmt.Fprintf(out, ".Default(%d)", int(rv.Float()))
+		default:
+			return errors.New("default value must be a number")
+		}
 	}
 
 	return nil
@@ -346,12 +356,14 @@ func generateEnumCode(ctx *genctx, out io.Writer, c *EnumConstraint) error {
 		switch rv.Kind() {
 		case reflect.String:
 			fmt.Fprintf(out, "%s", strconv.Quote(rv.String()))
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			fmt.Fprintf(out, "%d", rv.Int())
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			fmt.Fprintf(out, "%d", rv.Uint())
 		case reflect.Float32, reflect.Float64:
 			fmt.Fprintf(out, "%f", rv.Float())
 		default:
-			return fmt.Errorf("failed to stringify enum value %#v", rv.Interface())
+			return fmt.Errorf("failed to stringify enum value %#v", v)
 		}
 		if i < l-1 {
 			fmt.Fprintf(out, ", ")
-- 
2.43.0


From 06e99a9c45dd02c6b845f1c2a24217af369610e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:30 +0000
Subject: [PATCH 12/24] fix: return an error when a reference does not resolve
 to a schema

The build panicked with a nil dereference, which a schema can provoke in
the playground server.
---
 builder/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 2172597..158f1a0 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -137,6 +137,8 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		if err := s1.Extract(thing.(map[string]interface{})); err != nil {
 			return err
 		}
+	default:
+		return errors.New("reference '" + ref + "' does not resolve to a schema")
 	}
 
 	c1, err := buildFromSchema(ctx, s1)
-- 
2.43.0


From bbabaa650bd870c4e4e0e8505f0a529da3365083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:32 +0000
Subject: [PATCH 13/24] fix: do not answer a broken request body with success

The part of the body that arrived could itself be a complete schema.
---
 server/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index e0e96b4..a25aa90 100644
--- a/server/server.go
+++ b/server/server.go
@@ -163,7 +163,12 @@ func (s *Server) httpGenerateValidator(ctx context.Context, w http.ResponseWrite
 	resp := make(map[string]interface{})
 
 	buf := bytes.Buffer{}
-	io.Copy(&buf, r.Body)
+	if _, err := io.Copy(&buf, r.Body); err != nil {
+		resp["success"] = false
+		resp["message"] = err.Error()
+		json.NewEncoder(w).Encode(resp)
+		return
+	}
 
 	sc, err := schema.Read(bytes.NewReader(buf.Bytes()))
 	if err != nil {
-- 
2.43.0


From be355f7eb3f53e4ce68cc9fe9cff7109eb768cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:33 +0000
Subject: [PATCH 14/24] fix: keep the output file when code cannot be
 generated, and report failed writes

The jsval command truncated the output file before generating the code and
ignored errors on closing it.
---
 cmd/jsval/jsval.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cmd/jsval/jsval.go b/cmd/jsval/jsval.go
index f7876ab..cf48a93 100644
--- a/cmd/jsval/jsval.go
+++ b/cmd/jsval/jsval.go
@@ -1,9 +1,9 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
-	"io"
 	"log"
 	"os"
 
@@ -132,22 +132,33 @@ func _cli() int {
 		validators[i] = v
 	}
 
-	var out io.Writer
+	// Generate first, so that the output file is not touched on errors
+	var out bytes.Buffer
+	g := jsval.NewGenerator()
+	if err := g.Process(&out, validators...); err != nil {
+		log.Printf("%s", err)
+		return 1
+	}
 
-	out = os.Stdout
 	if fn := opts.OutFile; fn != "" {
 		f, err := os.Create(fn)
 		if err != nil {
 			log.Printf("%s", err)
 			return 1
 		}
-		defer f.Close()
-
-		out = f
+		if _, err := out.WriteTo(f); err != nil {
+			f.Close()
+			log.Printf("%s", err)
+			return 1
+		}
+		if err := f.Close(); err != nil {
+			log.Printf("%s", err)
+			return 1
+		}
+		return 0
 	}
 
-	g := jsval.NewGenerator()
-	if err := g.Process(out, validators...); err != nil {
+	if _, err := out.WriteTo(os.Stdout); err != nil {
 		log.Printf("%s", err)
 		return 1
 	}
-- 
2.43.0


From a51a9447997555648ad636a159103bab20710348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:34 +0000
Subject: [PATCH 15/24] fix: gentest reports failed writes

It exited with success although the output file was incomplete.
---
 internal/cmd/gentest/gentest.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/cmd/gentest/gentest.go b/internal/cmd/gentest/gentest.go
index a90de07..4a3832e 100644
--- a/internal/cmd/gentest/gentest.go
+++ b/internal/cmd/gentest/gentest.go
@@ -45,8 +45,14 @@ func _main() int {
 		log.Printf("%s", err)
 		return 1
 	}
-	defer f.Close()
-
-	io.Copy(f, &out)
+	if _, err := io.Copy(f, &out); err != nil {
+		f.Close()
+		log.Printf("%s", err)
+		return 1
+	}
+	if err := f.Close(); err != nil {
+		log.Printf("%s", err)
+		return 1
+	}
 	return 0
 }
-- 
2.43.0


From f33a7f5c950d448d4559039c8edaecb68974b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:35 +0000
Subject: [PATCH 16/24] fix: genmaybe reports failed writes

It exited with success although files could not be opened or written.
---
 internal/cmd/genmaybe/genmaybe.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index 679237b..f66c6e6 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -248,16 +248,18 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 func writeFormatted(fn string, code []byte) {
 	fsrc, err := format.Source(code)
 	if err != nil {
-		log.Printf("Error formatting: %s", err)
-		fsrc = code
+		log.Fatalf("Error formatting: %s", err)
 	}
 
 	fh, err := os.OpenFile(fn, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
-		log.Printf("Error opening file: %s", err)
-		return
+		log.Fatalf("Error opening file: %s", err)
 	}
-	defer fh.Close()
 
-	fh.Write(fsrc)
+	if _, err := fh.Write(fsrc); err != nil {
+		log.Fatalf("Error writing file: %s", err)
+	}
+	if err := fh.Close(); err != nil {
+		log.Fatalf("Error closing file: %s", err)
+	}
 }
-- 
2.43.0


From 04ad1e8fdfb27913bc3eb7503288a23d9a25f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:37 +0000
Subject: [PATCH 17/24] fix: a decoded MaybeTime is present

UnmarshalJSON stored the time but did not set the flag, so that validation
treated the field as absent.
---
 internal/cmd/genmaybe/genmaybe.go | 3 +--
 maybe.go                          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index f66c6e6..e67048d 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -225,8 +225,7 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\nif err != nil {")
 			buf.WriteString("\n	return err")
 			buf.WriteString("\n}")
-			buf.WriteString("\nv.Time = t")
-			buf.WriteString("\nreturn nil")
+			buf.WriteString("\nreturn v.Set(t)")
 			buf.WriteString("\n}")
 		} else {
 			fmt.Fprintf(&buf, "\n\nfunc (v Maybe%s) MarshalJSON() ([]byte, error) {", t)
diff --git a/maybe.go b/maybe.go
index 6006278..a187011 100644
--- a/maybe.go
+++ b/maybe.go
@@ -242,8 +242,7 @@ func (v *MaybeTime) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	v.Time = t
-	return nil
+	return v.Set(t)
 }
 
 type MaybeUint struct {
-- 
2.43.0


From 724ec270a4f7731fe741b505c4f423cb77653a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:38 +0000
Subject: [PATCH 18/24] fix: keep fractions of a second when encoding a
 MaybeTime

Encoding and decoding a time lost everything below a second.
---
 internal/cmd/genmaybe/genmaybe.go | 2 +-
 maybe.go                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index e67048d..51e439b 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -214,7 +214,7 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 		if t == "Time" {
 			// This has to be handled separately
 			buf.WriteString("\n\nfunc (v MaybeTime) MarshalJSON() ([]byte, error) {")
-			buf.WriteString("\nreturn json.Marshal(v.Time.Format(time.RFC3339))")
+			buf.WriteString("\nreturn json.Marshal(v.Time.Format(time.RFC3339Nano))")
 			buf.WriteString("\n}")
 			buf.WriteString("\n\nfunc (v *MaybeTime) UnmarshalJSON(data []byte) error {")
 			buf.WriteString("\nvar s string")
diff --git a/maybe.go b/maybe.go
index a187011..c041c2a 100644
--- a/maybe.go
+++ b/maybe.go
@@ -230,7 +230,7 @@ func (v MaybeTime) Value() interface{} {
 }
 
 func (v MaybeTime) MarshalJSON() ([]byte, error) {
-	return json.Marshal(v.Time.Format(time.RFC3339))
+	return json.Marshal(v.Time.Format(time.RFC3339Nano))
 }
 
 func (v *MaybeTime) UnmarshalJSON(data []byte) error {
-- 
2.43.0


From a3d0ff7aa535a4d85c57777777b7d6a52c7452a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:34 +0000
Subject: [PATCH 19/24] fix: print every constraint of a pattern that was
 registered twice

---
 generator.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/generator.go b/generator.go
index fe59b1f..16b36e6 100644
--- a/generator.go
+++ b/generator.go
@@ -466,20 +466,28 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 	// for us. It's easy to write one, but we'd have to stringify them
 	// anyways, so we might as well just create a temporary container
 	// with strings as keys
-	ppmap := make(map[string]Constraint)
+	ppmap := make(map[string][]string)
 	ppnames := make([]string, 0, len(c.patternProperties))
 	for rx, ppc := range c.patternProperties {
 		rxs := rx.String()
-		ppmap[rxs] = ppc
-		ppnames = append(ppnames, rxs)
+		ppbuf := bytes.Buffer{}
+		if err := generateCode(ctx, &ppbuf, ppc); err != nil {
+			return err
+		}
+		if _, ok := ppmap[rxs]; !ok {
+			ppnames = append(ppnames, rxs)
+		}
+		// the same pattern may have been registered more than once
+		ppmap[rxs] = append(ppmap[rxs], ppbuf.String())
 	}
 	sort.Strings(ppnames)
 	for _, ppname := range ppnames {
-		fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(ppname))
-		if err := generateCode(ctx, out, ppmap[ppname]); err != nil {
-			return err
+		sort.Strings(ppmap[ppname])
+		for _, code := range ppmap[ppname] {
+			fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(ppname))
+			fmt.Fprint(out, code)
+			fmt.Fprint(out, ",\n)")
 		}
-		fmt.Fprint(out, ",\n)")
 	}
 
 	if m := c.propdeps; len(m) > 0 {
-- 
2.43.0


From ea545748f05a848690bf562f1bb1b268a899015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:28 +0000
Subject: [PATCH 20/24] fix: find struct fields by their path, not by their
 name

With embedded structs, several fields can have the same Go name: looking
the field of a property up by name then gave another field's value.
---
 object.go     |  4 ++--
 structinfo.go | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/object.go b/object.go
index 0bc4a5d..0d57114 100644
--- a/object.go
+++ b/object.go
@@ -325,14 +325,14 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 			si = structInfoRegistry.Register(rv.Type())
 		}
 
-		fn, ok := si.FieldName(pname)
+		fi, ok := si.fieldIndex(pname)
 		if !ok {
 			if pdebug.Enabled {
 				pdebug.Printf("Could not resolve name '%s'", pname)
 			}
 			return zeroval
 		}
-		return rv.FieldByName(fn)
+		return rv.FieldByIndex(fi)
 	default:
 		return zeroval
 	}
diff --git a/structinfo.go b/structinfo.go
index e6e40dc..54c5cd3 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -12,6 +12,8 @@ type PropInfo struct {
 	FieldName string
 	// IsMaybe is true if this property implements the Maybe interface
 	IsMaybe bool
+	// index is the path to the field, through embedded structs
+	index []int
 }
 
 type StructInfo struct {
@@ -35,6 +37,16 @@ func (si *StructInfo) FieldName(pname string) (string, bool) {
 	return pinfo.FieldName, true
 }
 
+// fieldIndex is like FieldName, but returns the path to the field: field
+// names are not unique if there are embedded structs
+func (si *StructInfo) fieldIndex(pname string) ([]int, bool) {
+	si.lock.RLock()
+	defer si.lock.RUnlock()
+
+	pinfo, ok := si.props[pname]
+	return pinfo.index, ok
+}
+
 // Gets the list of property names for this particuar instance of a
 // struct. Uninitialized types are not considered, so we remove
 // them depending on the state of this instance of the struct
@@ -45,7 +57,7 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 	pnames := make([]string, 0, len(si.props))
 	for pname, pinfo := range si.props {
 		if pinfo.IsMaybe {
-			fv := rv.FieldByName(pinfo.FieldName)
+			fv := rv.FieldByIndex(pinfo.index)
 			mv := fv.MethodByName("Valid")
 			out := mv.Call(nil)
 			if !out[0].Bool() {
@@ -118,6 +130,10 @@ func extract(t reflect.Type) map[string]PropInfo {
 		if fv.Anonymous {
 			info := extract(fv.Type)
 			for k, v := range info {
+				if p, ok := props[k]; ok && len(p.index) <= len(v.index) {
+					continue // hidden by a field that is less deep
+				}
+				v.index = append([]int{i}, v.index...)
 				props[k] = v
 			}
 			continue
@@ -145,6 +161,7 @@ func extract(t reflect.Type) map[string]PropInfo {
 			props[fv.Name] = PropInfo{
 				FieldName: fv.Name,
 				IsMaybe:   isMaybe,
+				index:     fv.Index,
 			}
 			continue
 		}
@@ -159,6 +176,7 @@ func extract(t reflect.Type) map[string]PropInfo {
 		props[tag[:flen+1]] = PropInfo{
 			FieldName: fv.Name,
 			IsMaybe:   isMaybe,
+			index:     fv.Index,
 		}
 	}
 	return props
-- 
2.43.0


From fbc90e55222850017e0eb351652aa193f346e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:42 +0000
Subject: [PATCH 21/24] fix: apply rules for the same pattern in the order they
 were added

Two rules registered for the same pattern text were applied in map
iteration order, so which default filled in a property of the value, and
with it the verdict, changed from one validation to the next.
---
 interface.go |  1 +
 object.go    | 13 +++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/interface.go b/interface.go
index 38484a6..c52a2a3 100644
--- a/interface.go
+++ b/interface.go
@@ -110,6 +110,7 @@ type ObjectConstraint struct {
 	additionalProperties Constraint
 	deplock              sync.Mutex
 	patternProperties    map[*regexp.Regexp]Constraint
+	patternOrder         []*regexp.Regexp
 	proplock             sync.Mutex
 	properties           map[string]Constraint
 	propdeps             map[string][]string
diff --git a/object.go b/object.go
index 0d57114..167a87c 100644
--- a/object.go
+++ b/object.go
@@ -91,6 +91,9 @@ func (o *ObjectConstraint) PatternProperties(key *regexp.Regexp, c Constraint) *
 	o.proplock.Lock()
 	defer o.proplock.Unlock()
 
+	if _, ok := o.patternProperties[key]; !ok {
+		o.patternOrder = append(o.patternOrder, key)
+	}
 	o.patternProperties[key] = c
 	return o
 }
@@ -423,6 +426,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	for pat, c := range o.patternProperties {
 		patdefs[pat] = c
 	}
+	pats := append([]*regexp.Regexp(nil), o.patternOrder...)
 	o.proplock.Unlock()
 
 	// Go through the properties in a fixed order: constraints may fill in
@@ -477,12 +481,9 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
-	// A property must satisfy every pattern that it matches
-	pats := make([]*regexp.Regexp, 0, len(patdefs))
-	for pat := range patdefs {
-		pats = append(pats, pat)
-	}
-	sort.Slice(pats, func(i, j int) bool { return pats[i].String() < pats[j].String() })
+	// A property must satisfy every pattern that it matches. Rules for the
+	// same pattern are applied in the order they were added
+	sort.SliceStable(pats, func(i, j int) bool { return pats[i].String() < pats[j].String() })
 
 	extra := sortedNames(premain)
 	for _, pat := range pats {
-- 
2.43.0


From 43b8702929aedc84bb3e9691922e31a3f7b6a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:04 +0000
Subject: [PATCH 22/24] fix: keep a list of enumerated values of one's own

Validators that were built from a schema kept the schema's own list, so
that changing the schema afterwards changed, or raced with, validators
that had been built before.
---
 enum.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enum.go b/enum.go
index 097fefd..b5a3a5a 100644
--- a/enum.go
+++ b/enum.go
@@ -8,12 +8,13 @@ import (
 
 // Enum creates a new EnumConstraint
 func Enum(v ...interface{}) *EnumConstraint {
-	return &EnumConstraint{enums: v}
+	return (&EnumConstraint{}).Enum(v...)
 }
 
 // Enum method sets the possible enumerations
 func (c *EnumConstraint) Enum(v ...interface{}) *EnumConstraint {
-	c.enums = v
+	// the list may be part of something the caller goes on to change
+	c.enums = append([]interface{}(nil), v...)
 	return c
 }
 
-- 
2.43.0


From 1bfa1701fc2d08c0f02aa8128083986f1425ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:10 +0000
Subject: [PATCH 23/24] fix: give every input a default value of its own

A default that is an object or a list was stored itself: inputs that got it
shared it with one another and with the constraint, so that filling in defaults
in there for one input changed the others, and raced with them.
---
 object.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 167a87c..291d45e 100644
--- a/object.go
+++ b/object.go
@@ -374,6 +374,32 @@ func unwrapMaybe(pval reflect.Value) (reflect.Value, bool) {
 	}
 }
 
+// ownCopy copies decoded JSON containers, so that inputs which get the same
+// default do not share them
+func ownCopy(v interface{}) interface{} {
+	switch v := v.(type) {
+	case map[string]interface{}:
+		if v == nil {
+			return v
+		}
+		m := make(map[string]interface{}, len(v))
+		for k, e := range v {
+			m[k] = ownCopy(e)
+		}
+		return m
+	case []interface{}:
+		if v == nil {
+			return v
+		}
+		l := make([]interface{}, len(v))
+		for i, e := range v {
+			l[i] = ownCopy(e)
+		}
+		return l
+	}
+	return v
+}
+
 // Validate validates the given value against this ObjectConstraint
 func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	if pdebug.Enabled {
@@ -460,7 +486,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 					pdebug.Printf("object property '" + pname + "' has default")
 				}
 				// We have default
-				dv := c.DefaultValue()
+				dv := ownCopy(c.DefaultValue())
 
 				if err := o.setProp(rv, pname, dv); err != nil {
 					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
-- 
2.43.0


From 4c9c8f8b1352bade1170f661ace22c95669eeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:26 +0000
Subject: [PATCH 24/24] fix: a default that is an object or a list does not
 stay part of the schema

Defaults were kept as they were passed, so editing a schema or its
document in place changed validators that had been built from it.
---
 number.go | 2 +-
 string.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 872d3c2..7ae0af7 100644
--- a/number.go
+++ b/number.go
@@ -20,7 +20,7 @@ func (nc *NumberConstraint) Enum(l ...interface{}) *NumberConstraint {
 // Default specifies the default value for the given value
 func (nc *NumberConstraint) Default(v interface{}) *NumberConstraint {
 	nc.defaultValue.initialized = true
-	nc.defaultValue.value = v
+	nc.defaultValue.value = ownCopy(v)
 	return nc
 }
 
diff --git a/string.go b/string.go
index 9ef1d78..fb52d32 100644
--- a/string.go
+++ b/string.go
@@ -16,7 +16,7 @@ import (
 // Default sets the default value for this constraint.
 func (sc *StringConstraint) Default(v interface{}) *StringConstraint {
 	sc.defaultValue.initialized = true
-	sc.defaultValue.value = v
+	sc.defaultValue.value = ownCopy(v)
 	return sc
 }
 
-- 
2.43.0

