package main

import "fmt"

func liftMain() {
	src, r, err := liftPackage()
	if err != nil {
		fmt.Println("ERR", err)
		return
	}
	fmt.Println(string(src))
	for n, e := range r.errs {
		fmt.Println("//ERR", n, e)
	}
	for n, m := range r.issues {
		for k, v := range m {
			fmt.Println("//ISSUE", n, k, v)
		}
	}
}
