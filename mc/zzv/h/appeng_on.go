//go:build go1.22 && heroku

package main

const appengine = true
