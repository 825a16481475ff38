package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

// clearPos removes positions so that the printer lays the tree out afresh.
func clearPos(n ast.Node) {
	posT := reflect.TypeOf(token.NoPos)
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			switch v.Interface().(type) {
			case *ast.Object, *ast.Scope, *ast.CommentGroup:
				return
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			t := v.Type()
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == posT {
					name := t.Field(i).Name
					// these positions carry meaning: variadic calls, alias
					// declarations, grouped declarations
					if f.CanSet() && name != "Ellipsis" && name != "Assign" && !(name == "Lparen" && t.Name() == "GenDecl") && !(name == "Arrow" && t.Name() == "ChanType") {
						f.SetInt(0)
					}
					continue
				}
				if f.CanSet() {
					walk(f)
				}
			}
		}
	}
	walk(reflect.ValueOf(n))
}
