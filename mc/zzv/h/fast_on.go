//go:build go1.22 && fast

package main

// the build without per-peer metrics
const fastBuild = true
