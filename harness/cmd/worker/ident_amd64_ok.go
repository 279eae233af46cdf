//go:build amd64

package main

const identOK = !raceBuild
