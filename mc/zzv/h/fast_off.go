//go:build go1.22 && !fast

package main

const fastBuild = false
