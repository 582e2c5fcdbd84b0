package main

func main() { realMain() }
