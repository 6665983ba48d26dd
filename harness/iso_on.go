//go:build verif

package main

import "github.com/LazarenkoA/1c-language-parser/ast"

func init() { ast.VerifToken = isoToken }
