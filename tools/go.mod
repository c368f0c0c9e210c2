module verif/tools

go 1.21
