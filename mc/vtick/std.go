package vtick

import (
	"bytes"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"
)

// found is how far a search went that found something at i, or nothing in n bytes.
func found(i, n int) int {
	if i < 0 {
		return n
	}
	return i
}

func SlicesIndex[S ~[]E, E comparable](s S, v E) int {
	r := slices.Index(s, v)
	through(8 * found(r, len(s)))
	return r
}

func SlicesContains[S ~[]E, E comparable](s S, v E) bool { return SlicesIndex(s, v) >= 0 }

func SlicesClone[S ~[]E, E any](s S) S {
	through(8 * len(s))
	return slices.Clone(s)
}

func StringsIndex(s, t string) int {
	r := strings.Index(s, t)
	through(found(r, len(s)))
	return r
}

func StringsIndexByte(s string, c byte) int {
	r := strings.IndexByte(s, c)
	through(found(r, len(s)))
	return r
}

func StringsIndexRune(s string, c rune) int {
	r := strings.IndexRune(s, c)
	through(found(r, len(s)))
	return r
}

func StringsIndexAny(s string, t string) int {
	r := strings.IndexAny(s, t)
	through(found(r, len(s)))
	return r
}

func StringsLastIndex(s, t string) int {
	r := strings.LastIndex(s, t)
	through(len(s) - max(r, 0))
	return r
}

func StringsLastIndexByte(s string, c byte) int {
	r := strings.LastIndexByte(s, c)
	through(len(s) - max(r, 0))
	return r
}

func StringsLastIndexAny(s string, t string) int {
	r := strings.LastIndexAny(s, t)
	through(len(s) - max(r, 0))
	return r
}

func StringsContains(s, t string) bool {
	through(found(strings.Index(s, t), len(s)))
	return strings.Contains(s, t)
}

func StringsContainsRune(s string, c rune) bool {
	through(found(strings.IndexRune(s, c), len(s)))
	return strings.ContainsRune(s, c)
}

func StringsContainsAny(s string, t string) bool {
	through(found(strings.IndexAny(s, t), len(s)))
	return strings.ContainsAny(s, t)
}

func StringsHasPrefix(s, t string) bool {
	through(len(t))
	return strings.HasPrefix(s, t)
}

func StringsHasSuffix(s, t string) bool {
	through(len(t))
	return strings.HasSuffix(s, t)
}

func StringsEqualFold(s, t string) bool {
	through(min(len(s), len(t)))
	return strings.EqualFold(s, t)
}

func StringsCompare(s, t string) int {
	through(min(len(s), len(t)))
	return strings.Compare(s, t)
}

func StringsCount(s, t string) int {
	through(len(s))
	return strings.Count(s, t)
}

func StringsToLower(s string) string {
	through(len(s))
	return strings.ToLower(s)
}

func StringsToUpper(s string) string {
	through(len(s))
	return strings.ToUpper(s)
}

func StringsToTitle(s string) string {
	through(len(s))
	return strings.ToTitle(s)
}

func StringsTitle(s string) string {
	through(len(s))
	return strings.Title(s)
}

func StringsSplit(s, t string) []string {
	through(len(s))
	return strings.Split(s, t)
}

func StringsSplitAfter(s, t string) []string {
	through(len(s))
	return strings.SplitAfter(s, t)
}

func StringsFields(s string) []string {
	through(len(s))
	return strings.Fields(s)
}

func StringsFieldsFunc(s string, f func(rune) bool) []string {
	through(len(s))
	return strings.FieldsFunc(s, f)
}

func StringsMap(f func(rune) rune, s string) string {
	through(len(s))
	return strings.Map(f, s)
}

func StringsRepeat(s string, n int) string {
	r := strings.Repeat(s, n)
	through(len(r))
	return r
}

func StringsReplace(s, t, u string, n int) string {
	r := strings.Replace(s, t, u, n)
	through(len(s) + len(r))
	return r
}

func StringsReplaceAll(s, t, u string) string {
	r := strings.ReplaceAll(s, t, u)
	through(len(s) + len(r))
	return r
}

func StringsTrimSpace(s string) string {
	r := strings.TrimSpace(s)
	through(len(s) - len(r))
	return r
}

func StringsTrim(s string, t string) string {
	r := strings.Trim(s, t)
	through(len(s) - len(r))
	return r
}

func StringsTrimLeft(s string, t string) string {
	r := strings.TrimLeft(s, t)
	through(len(s) - len(r))
	return r
}

func StringsTrimRight(s string, t string) string {
	r := strings.TrimRight(s, t)
	through(len(s) - len(r))
	return r
}

func StringsToValidUTF8(s, t string) string {
	through(len(s))
	return strings.ToValidUTF8(s, t)
}

func BytesIndex(s, t []byte) int {
	r := bytes.Index(s, t)
	through(found(r, len(s)))
	return r
}

func BytesIndexByte(s []byte, c byte) int {
	r := bytes.IndexByte(s, c)
	through(found(r, len(s)))
	return r
}

func BytesIndexRune(s []byte, c rune) int {
	r := bytes.IndexRune(s, c)
	through(found(r, len(s)))
	return r
}

func BytesIndexAny(s []byte, t string) int {
	r := bytes.IndexAny(s, t)
	through(found(r, len(s)))
	return r
}

func BytesLastIndex(s, t []byte) int {
	r := bytes.LastIndex(s, t)
	through(len(s) - max(r, 0))
	return r
}

func BytesLastIndexByte(s []byte, c byte) int {
	r := bytes.LastIndexByte(s, c)
	through(len(s) - max(r, 0))
	return r
}

func BytesLastIndexAny(s []byte, t string) int {
	r := bytes.LastIndexAny(s, t)
	through(len(s) - max(r, 0))
	return r
}

func BytesContains(s, t []byte) bool {
	through(found(bytes.Index(s, t), len(s)))
	return bytes.Contains(s, t)
}

func BytesContainsRune(s []byte, c rune) bool {
	through(found(bytes.IndexRune(s, c), len(s)))
	return bytes.ContainsRune(s, c)
}

func BytesContainsAny(s []byte, t string) bool {
	through(found(bytes.IndexAny(s, t), len(s)))
	return bytes.ContainsAny(s, t)
}

func BytesHasPrefix(s, t []byte) bool {
	through(len(t))
	return bytes.HasPrefix(s, t)
}

func BytesHasSuffix(s, t []byte) bool {
	through(len(t))
	return bytes.HasSuffix(s, t)
}

func BytesEqualFold(s, t []byte) bool {
	through(min(len(s), len(t)))
	return bytes.EqualFold(s, t)
}

func BytesCompare(s, t []byte) int {
	through(min(len(s), len(t)))
	return bytes.Compare(s, t)
}

func BytesCount(s, t []byte) int {
	through(len(s))
	return bytes.Count(s, t)
}

func BytesToLower(s []byte) []byte {
	through(len(s))
	return bytes.ToLower(s)
}

func BytesToUpper(s []byte) []byte {
	through(len(s))
	return bytes.ToUpper(s)
}

func BytesToTitle(s []byte) []byte {
	through(len(s))
	return bytes.ToTitle(s)
}

func BytesTitle(s []byte) []byte {
	through(len(s))
	return bytes.Title(s)
}

func BytesSplit(s, t []byte) [][]byte {
	through(len(s))
	return bytes.Split(s, t)
}

func BytesSplitAfter(s, t []byte) [][]byte {
	through(len(s))
	return bytes.SplitAfter(s, t)
}

func BytesFields(s []byte) [][]byte {
	through(len(s))
	return bytes.Fields(s)
}

func BytesFieldsFunc(s []byte, f func(rune) bool) [][]byte {
	through(len(s))
	return bytes.FieldsFunc(s, f)
}

func BytesMap(f func(rune) rune, s []byte) []byte {
	through(len(s))
	return bytes.Map(f, s)
}

func BytesRepeat(s []byte, n int) []byte {
	r := bytes.Repeat(s, n)
	through(len(r))
	return r
}

func BytesReplace(s, t, u []byte, n int) []byte {
	r := bytes.Replace(s, t, u, n)
	through(len(s) + len(r))
	return r
}

func BytesReplaceAll(s, t, u []byte) []byte {
	r := bytes.ReplaceAll(s, t, u)
	through(len(s) + len(r))
	return r
}

func BytesTrimSpace(s []byte) []byte {
	r := bytes.TrimSpace(s)
	through(len(s) - len(r))
	return r
}

func BytesTrim(s []byte, t string) []byte {
	r := bytes.Trim(s, t)
	through(len(s) - len(r))
	return r
}

func BytesTrimLeft(s []byte, t string) []byte {
	r := bytes.TrimLeft(s, t)
	through(len(s) - len(r))
	return r
}

func BytesTrimRight(s []byte, t string) []byte {
	r := bytes.TrimRight(s, t)
	through(len(s) - len(r))
	return r
}

func BytesToValidUTF8(s, t []byte) []byte {
	through(len(s))
	return bytes.ToValidUTF8(s, t)
}

func StringsJoin(s []string, t string) string {
	r := strings.Join(s, t)
	through(len(r))
	return r
}

func StringsClone(s string) string {
	through(len(s))
	return strings.Clone(s)
}

func BytesJoin(s [][]byte, t []byte) []byte {
	r := bytes.Join(s, t)
	through(len(r))
	return r
}

func BytesClone(s []byte) []byte {
	through(len(s))
	return bytes.Clone(s)
}

func BytesEqual(s, t []byte) bool {
	through(min(len(s), len(t)))
	return bytes.Equal(s, t)
}

func Utf8RuneCountInString(s string) int {
	through(len(s))
	return utf8.RuneCountInString(s)
}

func Utf8RuneCount(s []byte) int {
	through(len(s))
	return utf8.RuneCount(s)
}

func Utf8ValidString(s string) bool {
	through(len(s))
	return utf8.ValidString(s)
}

func Utf8Valid(s []byte) bool {
	through(len(s))
	return utf8.Valid(s)
}

func StrconvQuote(s string) string {
	r := strconv.Quote(s)
	through(len(r))
	return r
}

func StrconvQuoteToASCII(s string) string {
	r := strconv.QuoteToASCII(s)
	through(len(r))
	return r
}

func FmtSprintf(s string, v ...any) string {
	r := fmt.Sprintf(s, v...)
	through(len(r))
	return r
}

func FmtSprint(v ...any) string {
	r := fmt.Sprint(v...)
	through(len(r))
	return r
}

func FmtSprintln(v ...any) string {
	r := fmt.Sprintln(v...)
	through(len(r))
	return r
}
