module github.com/mewmew/mathclass

go 1.24
