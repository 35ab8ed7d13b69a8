//go:build web

package main

import _ "sourcegraph.com/sourcegraph/appdash/cmd/appdash"
