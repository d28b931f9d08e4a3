# Sourced: build PROP BIN makes BIN/check (and what it needs) from /repo's working tree.
build() {
	local prop=$1 bin=$2 mod=core flags=()
	local ver="-X github.com/webrpc/webrpc.VERSION=v0.99.0"
	case $prop in
	P20 | P21 | P22 | P23) mod=gen ;;
	P24) mod=conc ;;
	esac
	cd "$verif/harness/$mod" || return 1
	case $prop in
	P22)
		python3 "$verif/tools/stdoverlay.py" "$(go env GOROOT)" "$bin" || return 1
		flags=(-tags verifos -overlay "$bin/overlay.json")
		;;
	P24)
		local pkgs
		pkgs=$(go list -deps . | grep '^github.com/webrpc/webrpc') || return 1
		(cd "$verif/harness/weave" && go build -o "$bin/weave" .) || return 1
		export CGO_ENABLED=1 VERIF_NOTES=$bin/notes
		export GORACE="log_path=$bin/race exitcode=0 atexit_sleep_ms=0" GODEBUG=asyncpreemptoff=1
		if ! "$bin/weave" "$bin" $pkgs || ! go build -race -overlay "$bin/overlay.json" -o "$bin/check" .; then
			echo "code that could not be brought under the scheduler" >"$bin/notes"
			go build -race -o "$bin/check" . || return 1
		fi
		return
		;;
	P21)
		go build -ldflags "$ver" -o "$bin/webrpc-gen" github.com/webrpc/webrpc/cmd/webrpc-gen || return 1
		;;
	P29)
		go build -ldflags "$ver" -o "$bin/webrpc-test" github.com/webrpc/webrpc/cmd/webrpc-test || return 1
		;;
	esac
	go build "${flags[@]}" -ldflags "$ver" -o "$bin/check" .
}
