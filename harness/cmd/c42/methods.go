package main

import "io"

// The methods of the algorithms, all alike.

func (a empty) PublicKeySize() int                           { return a.toy().pub }
func (a empty) PrivateKeySize() int                          { return a.toy().priv }
func (a empty) SignatureSize() int                           { return a.toy().sig }
func (a empty) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a empty) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a empty) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a empty) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a params) PublicKeySize() int                           { return a.toy().pub }
func (a params) PrivateKeySize() int                          { return a.toy().priv }
func (a params) SignatureSize() int                           { return a.toy().sig }
func (a params) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a params) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a params) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a params) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a nested) PublicKeySize() int                           { return a.toy().pub }
func (a nested) PrivateKeySize() int                          { return a.toy().priv }
func (a nested) SignatureSize() int                           { return a.toy().sig }
func (a nested) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a nested) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a nested) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a nested) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a number) PublicKeySize() int                           { return a.toy().pub }
func (a number) PrivateKeySize() int                          { return a.toy().priv }
func (a number) SignatureSize() int                           { return a.toy().sig }
func (a number) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a number) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a number) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a number) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a byteNo) PublicKeySize() int                           { return a.toy().pub }
func (a byteNo) PrivateKeySize() int                          { return a.toy().priv }
func (a byteNo) SignatureSize() int                           { return a.toy().sig }
func (a byteNo) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a byteNo) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a byteNo) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a byteNo) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a float) PublicKeySize() int                           { return a.toy().pub }
func (a float) PrivateKeySize() int                          { return a.toy().priv }
func (a float) SignatureSize() int                           { return a.toy().sig }
func (a float) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a float) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a float) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a float) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a text) PublicKeySize() int                           { return a.toy().pub }
func (a text) PrivateKeySize() int                          { return a.toy().priv }
func (a text) SignatureSize() int                           { return a.toy().sig }
func (a text) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a text) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a text) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a text) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a slice) PublicKeySize() int                           { return a.toy().pub }
func (a slice) PrivateKeySize() int                          { return a.toy().priv }
func (a slice) SignatureSize() int                           { return a.toy().sig }
func (a slice) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a slice) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a slice) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a slice) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a array) PublicKeySize() int                           { return a.toy().pub }
func (a array) PrivateKeySize() int                          { return a.toy().priv }
func (a array) SignatureSize() int                           { return a.toy().sig }
func (a array) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a array) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a array) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a array) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a table) PublicKeySize() int                           { return a.toy().pub }
func (a table) PrivateKeySize() int                          { return a.toy().priv }
func (a table) SignatureSize() int                           { return a.toy().sig }
func (a table) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a table) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a table) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a table) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a function) PublicKeySize() int                           { return a.toy().pub }
func (a function) PrivateKeySize() int                          { return a.toy().priv }
func (a function) SignatureSize() int                           { return a.toy().sig }
func (a function) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a function) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a function) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a function) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a boolean) PublicKeySize() int                           { return a.toy().pub }
func (a boolean) PrivateKeySize() int                          { return a.toy().priv }
func (a boolean) SignatureSize() int                           { return a.toy().sig }
func (a boolean) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a boolean) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a boolean) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a boolean) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a channel) PublicKeySize() int                           { return a.toy().pub }
func (a channel) PrivateKeySize() int                          { return a.toy().priv }
func (a channel) SignatureSize() int                           { return a.toy().sig }
func (a channel) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a channel) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a channel) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a channel) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a complexNo) PublicKeySize() int                           { return a.toy().pub }
func (a complexNo) PrivateKeySize() int                          { return a.toy().priv }
func (a complexNo) SignatureSize() int                           { return a.toy().sig }
func (a complexNo) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a complexNo) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a complexNo) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a complexNo) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a generic[T]) PublicKeySize() int                           { return a.toy().pub }
func (a generic[T]) PrivateKeySize() int                          { return a.toy().priv }
func (a generic[T]) SignatureSize() int                           { return a.toy().sig }
func (a generic[T]) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a generic[T]) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a generic[T]) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a generic[T]) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a large) PublicKeySize() int                           { return a.toy().pub }
func (a large) PrivateKeySize() int                          { return a.toy().priv }
func (a large) SignatureSize() int                           { return a.toy().sig }
func (a large) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a large) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a large) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a large) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a unicode_é) PublicKeySize() int                           { return a.toy().pub }
func (a unicode_é) PrivateKeySize() int                          { return a.toy().priv }
func (a unicode_é) SignatureSize() int                           { return a.toy().sig }
func (a unicode_é) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a unicode_é) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a unicode_é) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a unicode_é) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a noKeys) PublicKeySize() int                           { return a.toy().pub }
func (a noKeys) PrivateKeySize() int                          { return a.toy().priv }
func (a noKeys) SignatureSize() int                           { return a.toy().sig }
func (a noKeys) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a noKeys) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a noKeys) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a noKeys) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a bigKeys) PublicKeySize() int                           { return a.toy().pub }
func (a bigKeys) PrivateKeySize() int                          { return a.toy().priv }
func (a bigKeys) SignatureSize() int                           { return a.toy().sig }
func (a bigKeys) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a bigKeys) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a bigKeys) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a bigKeys) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a *onPointer) PublicKeySize() int                           { return a.toy().pub }
func (a *onPointer) PrivateKeySize() int                          { return a.toy().priv }
func (a *onPointer) SignatureSize() int                           { return a.toy().sig }
func (a *onPointer) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a *onPointer) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a *onPointer) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a *onPointer) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }

func (a *onPointer2) PublicKeySize() int                           { return a.toy().pub }
func (a *onPointer2) PrivateKeySize() int                          { return a.toy().priv }
func (a *onPointer2) SignatureSize() int                           { return a.toy().sig }
func (a *onPointer2) Public(p []byte) []byte                       { return a.toy().Public(p) }
func (a *onPointer2) Generate(r io.Reader) ([]byte, []byte, error) { return a.toy().Generate(r) }
func (a *onPointer2) Sign(p, m []byte) []byte                      { return a.toy().Sign(p, m) }
func (a *onPointer2) Verify(p, m, s []byte) bool                   { return a.toy().Verify(p, m, s) }
