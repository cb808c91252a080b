package main

func main() { mainCheck() }
