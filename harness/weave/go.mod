module verifweave

go 1.24
