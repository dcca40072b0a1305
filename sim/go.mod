module vsim

go 1.27
