# build_for <ID> <out>: builds the harness binary (and helpers) for a property
build_for() {
  local id="$1" out="$2"
  case "$id" in
  C07|C36)
    map_overlay "$B" || return 1
    go build -modfile="$VERIF_MODFILE" -overlay "$B/maps.json" -ldflags=-checklinkname=0 -tags maporder -o "$out" . || return 1
    return 0 ;;
  C37)
    mkdir -p "$B/y"
    go run -modfile="$VERIF_MODFILE" ../tools/instr.go "$VERIF_REPO" "$B/y" || return 1
    map_overlay "$B" || return 1
    # both overlays in one file
    sed -e 's/}}$//' "$B/y/yields.json" > "$B/both.json" && sed -e 's/^{"Replace": {/, /' "$B/maps.json" >> "$B/both.json" || return 1
    go build -modfile="$VERIF_MODFILE" -overlay "$B/both.json" -ldflags=-checklinkname=0 -tags maporder,yields -o "$out" . || return 1
    CGO_ENABLED=1 go build -race -modfile="$VERIF_MODFILE" -overlay "$B/y/yields.json" -ldflags=-checklinkname=0 -tags yields -o "$out.race" . || return 1
    return 0 ;;
  esac
  go build -modfile="$VERIF_MODFILE" -o "$out" . || return 1
  case "$id" in
  C38|C39) go build -modfile="$VERIF_MODFILE" -o "$out.cli" github.com/drone/drone-yaml || return 1 ;;
  C35) go build -modfile="$VERIF_MODFILE" -tags oss -o "$out.oss" . || return 1 ;;
  esac
}

# map_overlay <dir>: a copy of the runtime's map iterator whose order is
# chosen by the harness.
map_overlay() {
  local dir="$1" src
  src="$(go env GOROOT)/src/internal/runtime/maps/table.go"
  sed -e 's/^\tit\.entryOffset = rand()$/\tit.entryOffset, it.dirOffset = verifChoose(m)/' \
      -e '/^\tit\.dirOffset = rand()$/d' \
      -e 's/^\t\t\tk := uintptr(it\.entryIdx+it\.entryOffset) % abi\.MapGroupSlots$/&\n\t\t\tif it.entryOffset>>63 != 0 {\n\t\t\t\tk = uintptr(it.entryOffset>>(3*it.entryIdx)) \& 7\n\t\t\t}/' \
      "$src" > "$dir/table.go" || return 1
  cat >> "$dir/table.go" <<'G'

// VerifCtl is what the harness chooses for one goroutine.
type VerifCtl struct {
	G    uint64 // the goroutine, 0: not in use
	Mode uint64
	All  uint64
	At   [4]int64
	Dev  [4]uint64
	N    int64
	Len  [16384]uint32
}

var VerifCtls [16]VerifCtl

// verifG identifies the running goroutine.
//
//go:linkname verifG
func verifG() uint64

// verifChoose selects the order of one iteration: the runtime's own choice
// (goroutines that are not controlled), the same for all (mode 1), or the
// same for all but chosen ones (mode 2).
func verifChoose(m *Map) (uint64, uint64) {
	if g := verifG(); g != 0 {
		for i := range VerifCtls {
			c := &VerifCtls[i]
			if c.G != g {
				continue
			}
			if c.Mode == 1 {
				return c.All, c.All
			}
			if m.used < 2 {
				return 0, 0
			}
			n := c.N
			c.N++
			if n < int64(len(c.Len)) {
				c.Len[n] = uint32(m.used)
			}
			for j := range c.At {
				if c.At[j] == n {
					return c.Dev[j], c.Dev[j]
				}
			}
			return c.All, c.All
		}
	}
	return rand() &^ (1 << 63), rand()
}
G
  cat "$(go env GOROOT)/src/runtime/map.go" - > "$dir/rmap.go" <<'G'

//go:linkname maps_verifG internal/runtime/maps.verifG
func maps_verifG() uint64 {
	gp := getg().m.curg
	if gp == nil {
		return 0
	}
	return gp.goid
}
G
  [ "$(grep -c 'verifChoose(m)' "$dir/table.go")" = 1 ] && [ "$(grep -c 'it.entryOffset>>63' "$dir/table.go")" = 1 ] || { echo "unexpected runtime source"; return 1; }
  printf '{"Replace": {"%s": "%s", "%s": "%s"}}\n' "$src" "$dir/table.go" "$(go env GOROOT)/src/runtime/map.go" "$dir/rmap.go" > "$dir/maps.json"
}
