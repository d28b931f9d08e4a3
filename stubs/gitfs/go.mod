module github.com/posener/gitfs

go 1.16
