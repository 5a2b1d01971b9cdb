package main

const version = 5
