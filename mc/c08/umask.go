package main

import "syscall"

func umask() { syscall.Umask(022) }
