//go:build ignore

// Command hello shows that programs of a platform can be run here.
package main

import "fmt"

func main() { fmt.Println("hello") }
