module keygen

go 1.22
