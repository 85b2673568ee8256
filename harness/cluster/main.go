package main

import "github.com/sjwhitworth/golearn/verifdrv/vh"

func main() { vh.Main() }
