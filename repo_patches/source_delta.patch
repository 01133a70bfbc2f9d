From fdb8838f388c728a05bd56bf95afffc9eb6942a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 01/38] fix: read journal lines whole, whatever sizes reads
 return

ReadLine reports an error only after handing out the part of the line
before it, so a read error or the end of a growing file in mid-line split
one line in two, and lines over 4096 bytes ended the program.
---
 parser/lexer.go | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d39606d..f720f1e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -75,24 +75,31 @@ func (l *lexer) ingest() error {
 	return nil
 }
 
+// Reads the next line without its line ending
+// Returns io.EOF along with the last line if that line has no line ending
+func (l *lexer) readLine() ([]byte, error) {
+	line, err := l.reader.ReadBytes('\n')
+	if err != nil {
+		return line, err
+	}
+
+	line = line[:len(line)-1]
+	if len(line) > 0 && line[len(line)-1] == '\r' {
+		line = line[:len(line)-1]
+	}
+	return line, nil
+}
+
 // Lexes the file line by line
 func (l *lexer) lex() error {
 	l.currentLine = 1
 	for {
-		line, isPrefix, err := l.reader.ReadLine()
-		if err != nil {
-			if err.Error() == "EOF" {
-				// Let the parser know we have reached the end of the file
-				parseError := l.parser(eofItem, nil)
-				if parseError != nil {
-					return parseError
-				}
-				break
-			}
-			return err
+		line, readError := l.readLine()
+		if readError != nil && readError != io.EOF {
+			return readError
 		}
-		if isPrefix {
-			log.Fatalln("Unhandled split line (todo)")
+		if readError == io.EOF && len(line) == 0 {
+			break
 		}
 
 		// Reset the positions
@@ -101,14 +108,19 @@ func (l *lexer) lex() error {
 		l.width = 0
 
 		l.input = line
-		if err = l.lexLine(); err != nil {
+		if err := l.lexLine(); err != nil {
 			// Add line data and pass up the error
 			return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, err)
 		}
+		// The last line may not have a line ending
+		if readError == io.EOF {
+			break
+		}
 		l.currentLine++
 	}
 
-	return nil
+	// Let the parser know we have reached the end of the file
+	return l.parser(eofItem, nil)
 }
 
 // Lex the line
-- 
2.43.0


From efb7c62e6b9adac3106de6329edaaa130feda29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 02/38] fix: locate errors found at the end of a file

---
 parser/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index f720f1e..929ff5c 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -120,7 +120,11 @@ func (l *lexer) lex() error {
 	}
 
 	// Let the parser know we have reached the end of the file
-	return l.parser(eofItem, nil)
+	if err := l.parser(eofItem, nil); err != nil {
+		return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, err)
+	}
+
+	return nil
 }
 
 // Lex the line
-- 
2.43.0


From 69d4b5c2c5907bc949c40a13f5c891c175899b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 03/38] fix: report errors on standard error and exit with a
 failure status

---
 cmd/accounts.go | 9 ++++-----
 cmd/balance.go  | 6 +++---
 cmd/budget.go   | 6 +++---
 cmd/payees.go   | 9 ++++-----
 cmd/print.go    | 6 +++---
 cmd/stats.go    | 6 +++---
 6 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/cmd/accounts.go b/cmd/accounts.go
index ddf43d2..1816f4e 100644
--- a/cmd/accounts.go
+++ b/cmd/accounts.go
@@ -17,18 +17,17 @@ var accountsCmd = &cobra.Command{
 	Aliases:      []string{"acc", "a"},
 	Short:        "List all accounts",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		aj := newAccountsJournal()
 		th := dateCheckedTransactionHandler(aj.transactionHandler)
 		if err := parse(th, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		if err := aj.prepare(); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		aj.report()
+		return nil
 	},
 }
 
diff --git a/cmd/balance.go b/cmd/balance.go
index b3f94ca..786c23d 100644
--- a/cmd/balance.go
+++ b/cmd/balance.go
@@ -19,12 +19,11 @@ var balanceCmd = &cobra.Command{
 	Aliases:      []string{"bal", "b"},
 	Short:        "Shows accounts and their balances",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		bp := newBalanceProcessor()
 		// TODO: swap periodic transaction handler to bp one
 		if err := parse(bp.transactionHandler, bp.journal.AddPeriodicTransaction); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 
 		prepareBalance(bp.journal)
@@ -34,6 +33,7 @@ var balanceCmd = &cobra.Command{
 			fmt.Println("would print budget here")
 			// report(*bp.journal.BudgetRoot, flattenTree, collapseOnlyChildren)
 		}
+		return nil
 	},
 }
 
diff --git a/cmd/budget.go b/cmd/budget.go
index a982ea5..a0082bd 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -15,14 +15,14 @@ var budgetCmd = &cobra.Command{
 	Aliases:      []string{"bud", "B"},
 	Short:        "Shows budget accounts and their balances",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		bp := newBudgetProcessor()
 		if err := parse(bp.transactionHandler, bp.periodicTransactionHandler); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		// prepareBalance(bp.journal)
 		bp.report()
+		return nil
 	},
 }
 
diff --git a/cmd/payees.go b/cmd/payees.go
index f7caf36..3200a77 100644
--- a/cmd/payees.go
+++ b/cmd/payees.go
@@ -19,18 +19,17 @@ var payeesCmd = &cobra.Command{
 	Aliases:      []string{"pay", "p"},
 	Short:        "List all payees",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, args []string) {
+	RunE: func(_ *cobra.Command, args []string) error {
 		pj := newPayeesJournal()
 		th := dateCheckedTransactionHandler(pj.transactionHandler)
 		if err := parse(th, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		if err := pj.prepare(args); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		pj.report()
+		return nil
 	},
 }
 
diff --git a/cmd/print.go b/cmd/print.go
index 19e4f94..6c7ddfc 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -17,14 +17,14 @@ var printCmd = &cobra.Command{
 	Aliases:      []string{"p"},
 	Short:        "Shows transaction entries, sorted by date",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		pj := newPrintJournal()
 		if err := parse(pj.transactionHandler, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		pj.prepare()
 		pj.report()
+		return nil
 	},
 }
 
diff --git a/cmd/stats.go b/cmd/stats.go
index 98c7926..fd573be 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -21,14 +21,14 @@ var statsCmd = &cobra.Command{
 	Aliases:      []string{"stats", "s"},
 	Short:        "Shows statistics about the journal",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		sj := newStatisticsJournal()
 		if err := parse(sj.transactionHandler, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		sj.prepare()
 		sj.report()
+		return nil
 	},
 }
 
-- 
2.43.0


From f066ac43b79c9f859943e7d9f052bdda36abe57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 04/38] fix: reject dates shorter than a year and separator
 instead of panicking

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3e9b6cc..2573992 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -123,6 +123,10 @@ func parseDate(content []rune) (time.Time, error) {
 	var date time.Time
 	var err error
 
+	if len(content) < 5 {
+		return time.Time{}, fmt.Errorf("date is malformed: %s", s)
+	}
+
 	switch content[4] {
 	case '-':
 		date, err = time.Parse(dashDateFormat, s)
-- 
2.43.0


From ba21e173f3f47465fba7367f0993c4c40c17779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 05/38] fix: accept trailing spaces after an account and reject
 empty amounts

---
 parser/lexer.go  | 5 +++++
 parser/parser.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 929ff5c..d133104 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -273,6 +273,11 @@ func (l *lexer) lexPosting() error {
 			return nil
 		}
 
+		// Bail if only spaces follow the account: the amount is elided
+		if l.peek() == eof {
+			return nil
+		}
+
 		// Lex the commodity
 		commodity := l.lexCommodity()
 		if l.consumeSpace() > 0 {
diff --git a/parser/parser.go b/parser/parser.go
index 2573992..e547fcf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -146,6 +147,10 @@ func parseDate(content []rune) (time.Time, error) {
 }
 
 func parseAmount(content []rune) (int64, error) {
+	if len(content) == 0 {
+		return 0, errors.New("amount is empty")
+	}
+
 	// Handle signs
 	firstRune := content[0]
 	var multiplier int64
-- 
2.43.0


From 156fbf523cf6215994ef60e0874f7191a9a84859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 06/38] fix: read 10.5 as ten and a half and reject more
 decimals than are kept

---
 parser/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e547fcf..b47e3e7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -190,10 +190,18 @@ func parseAmount(content []rune) (int64, error) {
 		if err != nil {
 			return 0, err
 		}
-		decimal, err = strconv.ParseInt(string(content[decimalPosition+1:]), 10, 64)
+		decimals := content[decimalPosition+1:]
+		if len(decimals) > 2 {
+			return 0, fmt.Errorf("more than two decimal places: %s", string(content))
+		}
+		decimal, err = strconv.ParseInt(string(decimals), 10, 64)
 		if err != nil {
 			return 0, err
 		}
+		// A single digit after the point counts tenths
+		if len(decimals) == 1 {
+			decimal *= 10
+		}
 	}
 
 	quantity := multiplier * (whole*100 + decimal)
-- 
2.43.0


From a2cb316c989220db2803403e67c12c3a2ea2b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 07/38] fix: reject amounts with a second sign and amounts that
 overflow

---
 parser/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index b47e3e7..1c4610a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"time"
@@ -173,6 +174,13 @@ func parseAmount(content []rune) (int64, error) {
 		}
 	}
 
+	// Only digits and a decimal point may follow the sign
+	for _, r := range content {
+		if r != '.' && (r < '0' || r > '9') {
+			return 0, fmt.Errorf("amount is malformed: %s", string(content))
+		}
+	}
+
 	// Find whole and decimal
 	var whole int64
 	var decimal int64
@@ -204,6 +212,10 @@ func parseAmount(content []rune) (int64, error) {
 		}
 	}
 
+	if whole > (math.MaxInt64-decimal)/100 {
+		return 0, fmt.Errorf("amount is too large: %s", string(content))
+	}
+
 	quantity := multiplier * (whole*100 + decimal)
 
 	return quantity, nil
-- 
2.43.0


From 1d97b377369d9881ed06a40379db97c07330b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 08/38] fix: do not panic on postings and indented comments
 outside of a transaction

---
 parser/transactionbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 317b6f3..7e4e47b 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -48,6 +48,14 @@ func (tb *transactionBuilder) beginTransaction(t transactionType) {
 }
 
 func (tb *transactionBuilder) build(t itemType, content []rune) error {
+	// There is no current posting outside of a transaction
+	if tb.currentPosting == nil {
+		if t == commentItem {
+			return nil
+		}
+		return fmt.Errorf("expected transaction but got %s", t)
+	}
+
 	switch tb.transactionType {
 	case normalTransaction:
 		if err := tb.buildNormalTransaction(tb.transaction, t, content); err != nil {
-- 
2.43.0


From c69e9dbeab687fbf0bb198660abd391e0f5be5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 09/38] fix: attach notes of periodic transactions to them
 instead of panicking

---
 parser/transactionbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 7e4e47b..9ff071b 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -74,13 +74,13 @@ func (tb *transactionBuilder) build(t itemType, content []rune) error {
 func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) error {
 	switch item {
 	case transactionHeaderCommentItem:
-		tb.transaction.HeaderNote = string(content)
+		t.HeaderNote = string(content)
 	case commentItem:
 		// check if we've got a posting to attach the comment to
 		if len(tb.currentPosting.AccountPath) != 0 {
 			tb.currentPosting.AddComment(string(content))
 		} else {
-			tb.transaction.AddNote(string(content))
+			t.AddNote(string(content))
 		}
 	case dateItem:
 		date, err := parseDate(content)
-- 
2.43.0


From f62b238598744a0c7cca8c2c4eff44a413a5746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 10/38] fix: assign an elided amount also when it comes to zero

---
 journal/transaction.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 6fd9857..3b8e383 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -108,13 +108,14 @@ func (t *Transaction) Close() error {
 		sum += p.Amount.Quantity
 	}
 
-	if sum != 0 {
-		if t.postingWithElidedAmount == nil {
-			return errors.New("transaction does not balance")
-		}
-
+	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+		return nil
+	}
+
+	if sum != 0 {
+		return errors.New("transaction does not balance")
 	}
 
 	return nil
-- 
2.43.0


From 597229fb1b7ca3015be08813e4c18fb232a9d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 11/38] fix: do not add a nameless posting to transactions
 without postings

---
 parser/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 9ff071b..d83c022 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -214,7 +214,7 @@ func (tb *transactionBuilder) endTransaction(p Parser) error {
 
 func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) error {
 	// Make sure we add the last open posting
-	if tb.currentPosting != nil {
+	if tb.currentPosting != nil && len(tb.currentPosting.AccountPath) != 0 {
 		if err := t.AddPosting(tb.currentPosting); err != nil {
 			return err
 		}
-- 
2.43.0


From 2f83bec1479708a58da0333e5ba9a63c9f42029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 12/38] fix: reject a second elided amount instead of dropping
 its posting

---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index d83c022..03c140c 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -119,7 +119,9 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 		// Accounts start a posting, so check if we need to start a new one
 		if len(tb.currentPosting.AccountPath) != 0 {
-			t.AddPosting(tb.currentPosting)
+			if err := t.AddPosting(tb.currentPosting); err != nil {
+				return err
+			}
 			tb.currentPosting = journal.NewPosting()
 		}
 
-- 
2.43.0


From c2aa843f4b4caec5908d813c142c83f1759d66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 13/38] fix: keep accounts which sum to zero but have non-zero
 children

---
 journal/account.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index 15a2447..8229eaf 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -189,17 +189,11 @@ func (a *Account) findAccounts(matcher func(a Account) bool, found []*Account) [
 	return found
 }
 
+// RemoveEmptyChildren removes children which, like all of their descendants, have a zero amount
 func (a *Account) RemoveEmptyChildren() {
-	matcher := func(a Account) bool {
-		return a.Amount.Quantity == 0
-	}
-	matching := a.FindAccounts(matcher)
-	for _, m := range matching {
-		if m.Name == RootID {
-			continue
-		}
-		m.Unlink()
-	}
+	a.RemoveChildren(func(a Account) bool {
+		return a.Amount.Quantity != 0
+	})
 }
 
 // Unlink removes this account from it's parents
-- 
2.43.0


From 2c075a06045827c61426f3e7d280d0624ea2e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 14/38] fix: list journal files in the same order on every run

---
 cmd/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/stats.go b/cmd/stats.go
index fd573be..0a5404a 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -183,7 +183,12 @@ func (js *statisticsJournal) report() {
 
 	// Report the files
 	fmt.Printf("Transactions found in %d files:\n", len(js.journalFiles))
+	paths := make([]string, 0, len(js.journalFiles))
 	for p := range js.journalFiles {
+		paths = append(paths, p)
+	}
+	sort.Strings(paths)
+	for _, p := range paths {
 		fmt.Printf("  %s\n", p)
 	}
 
-- 
2.43.0


From 3ccfe8754054e03042de13c63bfef7fe4c5e5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 15/38] fix: print transactions of one day in the order of the
 journal

---
 cmd/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index 6c7ddfc..8e5f8de 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -52,7 +52,7 @@ func (pj *printJournal) transactionHandler(t *journal.Transaction, _ string) err
 }
 
 func (pj *printJournal) prepare() {
-	sort.Slice(pj.transactions, func(i, j int) bool {
+	sort.SliceStable(pj.transactions, func(i, j int) bool {
 		return pj.transactions[i].Date.Before(pj.transactions[j].Date)
 	})
 }
-- 
2.43.0


From bda81113182fc904729bdc2536e635210555cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 16/38] fix: keep the first character of header notes after a
 single space

---
 parser/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d133104..5a612fa 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -237,7 +237,10 @@ func (l *lexer) lexTransactionHeader() error {
 
 	comment := l.takeToNextLine()
 	if len(comment) > 0 {
-		c := trimSpaceStart(comment[1:])
+		if isCommentIndicator(comment[0]) {
+			comment = comment[1:]
+		}
+		c := trimSpaceStart(comment)
 		if err = l.parser(transactionHeaderCommentItem, c); err != nil {
 			return err
 		}
@@ -402,6 +405,7 @@ func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 		}
 
 		if isCommentIndicator(r) {
+			l.backup()
 			return trimSpace(runes)
 		}
 
-- 
2.43.0


From 799fe275428615f3b61c69414d1061543e808e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 17/38] fix: trim notes made of spaces only, so that printing
 them does not add spaces

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 5a612fa..5619d35 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -489,7 +489,7 @@ func trimSpaceStart(runes []rune) []rune {
 		return runes
 	}
 
-	index := 0
+	index := len(runes)
 	for i, r := range runes {
 		if r != ' ' {
 			index = i
-- 
2.43.0


From a081c0189ad349129e01f6e80e1b0f80da7a34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 18/38] fix: recognise header notes after more than one tab

---
 parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 5619d35..064d23e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -235,6 +235,7 @@ func (l *lexer) lexTransactionHeader() error {
 		return err
 	}
 
+	l.consumeSpace()
 	comment := l.takeToNextLine()
 	if len(comment) > 0 {
 		if isCommentIndicator(comment[0]) {
-- 
2.43.0


From 87840dfe81ac75db795d6ddd6f55e784b3184168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 19/38] fix: attribute transactions to their own file after
 nested includes

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1c4610a..f088167 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -84,7 +84,7 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 		}
 
 		// Drop the file from the slice
-		p.journalFiles = p.journalFiles[:1]
+		p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
 	case dateItem:
 		// This will start a transaction so check if we need to close a previous one
 		// in case there is no empty line between transactions
-- 
2.43.0


From 684581609c233b0552db6975a1fa33c6bc5945c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 20/38] fix: close an open transaction before including a file

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f088167..1dd1fd0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -64,6 +64,11 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			return err
 		}
 	case includeItem:
+		// An include closes any open transaction: it belongs to this file, not to the included one
+		if err := p.transactionBuilder.endTransaction(*p); err != nil {
+			return err
+		}
+
 		path := string(content)
 
 		// Add the file to the slice
-- 
2.43.0


From 8562acfed5e6ee0b6298fdf9ac21d56e48672902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 21/38] fix: reject journals which include themselves

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1dd1fd0..4156318 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -71,6 +72,13 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 
 		path := string(content)
 
+		// A file which is still being read cannot be included again
+		for _, open := range p.journalFiles {
+			if filepath.Clean(open) == filepath.Clean(path) {
+				return fmt.Errorf("%s includes itself", path)
+			}
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From 5617150eb5472370cfe1d12c424fe4bec427ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 22/38] fix: include absolute paths as they are

---
 parser/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 064d23e..14d0e54 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -191,8 +191,10 @@ func (l *lexer) lexIncludeDirective() error {
 
 	// We need to add any directory information here
 	// because the parser does not know about where we're including from
-	dir, _ := filepath.Split(l.locationHint)
-	fileToInclude = append([]rune(dir), fileToInclude...)
+	if !filepath.IsAbs(string(fileToInclude)) {
+		dir, _ := filepath.Split(l.locationHint)
+		fileToInclude = append([]rune(dir), fileToInclude...)
+	}
 
 	return l.parser(includeItem, fileToInclude)
 }
-- 
2.43.0


From 46ae8d7a3d1fe885bea1dc002ac50c02da7955e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 23/38] fix: do not report unmatched commodities for nested
 budget accounts

---
 journal/budget.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/journal/budget.go b/journal/budget.go
index da2cb3c..c930112 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -105,6 +105,18 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	expenseAccount := bm.ExpenseRoot.FindOrCreateAccount(pathComponents)
 	expenseAccount.Amount.Commodity = p.Amount.Commodity
 
+	// Ancestors take the commodity of the first posting below them
+	for _, account := range []*Account{envelopeAccount, expenseAccount} {
+		if err := account.WalkAncestors(func(a *Account) error {
+			if a.Amount.Commodity == "" {
+				a.Amount.Commodity = p.Amount.Commodity
+			}
+			return nil
+		}); err != nil {
+			return err
+		}
+	}
+
 	if pt == EnvelopePosting {
 		// Add to the envelope account
 		envelopeAccount.Postings = append(envelopeAccount.Postings, p)
-- 
2.43.0


From 90b52352912233de452cae87405528e45d9c9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 24/38] fix: show budgeted and activity amounts under their own
 headings

---
 cmd/budget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index a0082bd..1f77312 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -152,7 +152,7 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, expenseAccount.Amount, envelopeAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Println()
-- 
2.43.0


From c11b44d355f16874e385755f3941be8f5168fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 25/38] fix: do not panic on postings to Expenses itself in the
 budget report

---
 journal/account.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/journal/account.go b/journal/account.go
index 8229eaf..eb04552 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -112,6 +112,10 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 // FindOrCreateAccount searches the Account's children for one matching the components,
 // creating children as necessary if it does not find matching ones
 func (a *Account) FindOrCreateAccount(components []string) *Account {
+	if len(components) == 0 {
+		return a
+	}
+
 	child, remainingComponents := a.findChild(components)
 
 	// If there were no remaining accounts, we found the deepest
-- 
2.43.0


From c7477cbdd79d9a78af6ecfa3cca3f9c8de94dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 26/38] fix: reject empty filter arguments instead of panicking

---
 reporting/filter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reporting/filter.go b/reporting/filter.go
index 236b1da..7ec29e3 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -1,6 +1,7 @@
 package reporting
 
 import (
+	"errors"
 	"regexp"
 	"unicode"
 
@@ -32,6 +33,10 @@ type Filter struct {
 func NewFilter(arg string) (Filter, error) {
 	filter := Filter{}
 
+	if len(arg) == 0 {
+		return filter, errors.New("filters cannot be empty")
+	}
+
 	switch []rune(arg)[0] {
 	case '@':
 		filter.FilterType = PayeeFilter
-- 
2.43.0


From cf534e906390b37925abdf218d5571b32fb91c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 27/38] fix: reject postings to accounts which do not start
 with a letter instead of dropping them

---
 parser/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 14d0e54..5f8c1ed 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -302,8 +302,10 @@ func (l *lexer) lexPosting() error {
 		return nil
 	}
 
-	// If we didn't lex anything, we should reset the parser
-	l.backup()
+	// If we didn't lex anything, the line can only hold spaces
+	if firstRune != eof {
+		return errors.New("unexpected start of posting")
+	}
 
 	return nil
 }
-- 
2.43.0


From b4fee990dc77a7c6f40157532c9f7ecd4894d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 28/38] fix: handle filtered postings in the order of the
 journal

---
 cmd/common.go       | 6 ++++--
 reporting/filter.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 94d9ae3..70137b0 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -154,8 +154,10 @@ func checkAgainstFilters(t *journal.Transaction) (matchedTransaction bool, posti
 			matchedPostings[p] = true
 		}
 	}
-	for k := range matchedPostings {
-		postings = append(postings, k)
+	for _, p := range t.Postings {
+		if matchedPostings[p] {
+			postings = append(postings, p)
+		}
 	}
 
 	return false, postings, nil
diff --git a/reporting/filter.go b/reporting/filter.go
index 7ec29e3..e0b1daf 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -91,8 +91,10 @@ func (f Filter) MatchesTransactionHow(t journal.Transaction) (matchesPayee, matc
 		}
 	}
 
-	for k := range mp {
-		matchedPostings = append(matchedPostings, k)
+	for _, p := range t.Postings {
+		if mp[p] {
+			matchedPostings = append(matchedPostings, p)
+		}
 	}
 	return
 }
-- 
2.43.0


From 5c931447a0f4ba96fa048f7b161f0a49aa13a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 29/38] fix: display amounts of more than 2^53 hundredths
 exactly

---
 journal/amount.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index c876e15..5bc8d09 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -24,8 +24,11 @@ func (a Amount) String() string {
 
 // DisplayableQuantity formats the Amount's commodity and quantity
 func (a Amount) DisplayableQuantity(withCommodity bool) string {
-	q := float64(a.Quantity) / 100
-	amount := fmt.Sprintf("%.2f", q)
+	sign, whole, decimal := "", a.Quantity/100, a.Quantity%100
+	if a.Quantity < 0 {
+		sign, whole, decimal = "-", -whole, -decimal
+	}
+	amount := fmt.Sprintf("%s%d.%02d", sign, whole, decimal)
 	if withCommodity {
 		return fmt.Sprintf("%s%s", a.Commodity, amount)
 	}
-- 
2.43.0


From 54b8c2683f8d18442b50b646a5b2f227f5b1256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 30/38] fix: compare calendar days with --begin, --end and
 --current

Transactions are dated in UTC but the bounds were local midnights, looked
up again for every transaction: west of Greenwich a day was lost or gained,
--current let in tomorrow, and a run across midnight used two dates.
---
 cmd/common.go   | 69 +++++++++++++++++++++++++++----------------------
 parser/dates.go | 31 +++++++++++++---------
 2 files changed, 57 insertions(+), 43 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 70137b0..1986710 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -21,6 +21,10 @@ func parse(th parser.TransactionHandler, ph parser.PeriodicTransactionHandler) e
 		rootJournalPath = path
 	}
 
+	if err := setDateRange(); err != nil {
+		return err
+	}
+
 	file, err := os.Open(rootJournalPath)
 	if err != nil {
 		return err
@@ -59,12 +63,7 @@ func report(account journal.Account, flattenTree, shouldCollapseOnlyChildren boo
 // dateCheckedTransactionHandler wraps a transaction handler in --begin / --end checks
 func dateCheckedTransactionHandler(handler func(t *journal.Transaction, path string) error) func(t *journal.Transaction, path string) error {
 	return func(t *journal.Transaction, path string) error {
-		withinRange, err := withinDateRange(t)
-		if err != nil {
-			return err
-		}
-
-		if withinRange {
+		if withinDateRange(t) {
 			return handler(t, path)
 		}
 
@@ -74,12 +73,7 @@ func dateCheckedTransactionHandler(handler func(t *journal.Transaction, path str
 
 func dateCheckedFilteringTransactionHandler(handler func(t *journal.Transaction, path string) error) func(t *journal.Transaction, path string) error {
 	return func(t *journal.Transaction, path string) error {
-		withinRange, err := withinDateRange(t)
-		if err != nil {
-			return err
-		}
-
-		if !withinRange {
+		if !withinDateRange(t) {
 			return nil
 		}
 
@@ -97,43 +91,56 @@ func dateCheckedFilteringTransactionHandler(handler func(t *journal.Transaction,
 	}
 }
 
-func withinDateRange(t *journal.Transaction) (bool, error) {
+// dateRange holds the days reported on
+// Like the dates of transactions, its bounds are calendar days in UTC, whatever the local time zone
+var dateRange struct {
+	start, end       time.Time // the first day in the range and the first day after it
+	hasStart, hasEnd bool
+}
+
+// setDateRange settles the range of dates for the whole of this run
+func setDateRange() error {
 	var err error
-	var start, end time.Time
 
-	if len(beginDate) > 0 && !current {
-		start, err = parser.ParseSmartDate(beginDate)
+	if current {
+		today := time.Now()
+		dateRange.end = time.Date(today.Year(), today.Month(), today.Day()+1, 0, 0, 0, 0, time.UTC)
+		dateRange.hasEnd = true
+		return nil
+	}
+
+	if len(beginDate) > 0 {
+		dateRange.start, err = parser.ParseSmartDateInLocation(beginDate, time.UTC)
 		if err != nil {
-			return false, err
+			return err
 		}
+		dateRange.hasStart = true
 	}
 
-	if len(endDate) > 0 && !current {
-		end, err = parser.ParseSmartDate(endDate)
+	if len(endDate) > 0 {
+		dateRange.end, err = parser.ParseSmartDateInLocation(endDate, time.UTC)
 		if err != nil {
-			return false, err
+			return err
 		}
+		dateRange.hasEnd = true
 	}
 
-	if current {
-		start = time.Time{}
-		end = time.Now().AddDate(0, 0, 1)
-	}
+	return nil
+}
 
-	withinRange := (t.Date.Equal(start) || t.Date.After(start)) && (end.IsZero() || t.Date.Before(end))
+func withinDateRange(t *journal.Transaction) bool {
+	if dateRange.hasStart && t.Date.Before(dateRange.start) {
+		return false
+	}
 
-	return withinRange, nil
+	return !dateRange.hasEnd || t.Date.Before(dateRange.end)
 }
 
 // checkAgainstFilters lets you know if the transaction matched the filters or
 // (in the case that transaction wide attributes didn't match)
 // which postings matched the filters
 func checkAgainstFilters(t *journal.Transaction) (matchedTransaction bool, postings []*journal.Posting, err error) {
-	ok, err := withinDateRange(t)
-	if err != nil {
-		return false, nil, err
-	}
-	if !ok {
+	if !withinDateRange(t) {
 		return false, nil, nil
 	}
 
diff --git a/parser/dates.go b/parser/dates.go
index ce7fb68..3dd9cd3 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -8,7 +8,14 @@ import (
 	"time"
 )
 
+// ParseSmartDate parses dates in the local time zone
 func ParseSmartDate(date string) (time.Time, error) {
+	return ParseSmartDateInLocation(date, time.Local)
+}
+
+// ParseSmartDateInLocation parses dates in the given location
+// (in which the dates of transactions are, for instance, time.UTC)
+func ParseSmartDateInLocation(date string, location *time.Location) (time.Time, error) {
 	/* Mon Jan 2 15:04:05 MST 2006
 	04 - 2006
 	07 - 2006/01
@@ -34,20 +41,20 @@ func ParseSmartDate(date string) (time.Time, error) {
 
 	switch len(components) {
 	case 1: // year
-		return parseYear(date)
+		return parseYear(date, location)
 	case 2: // year/month or month/day
 		if len(components[0]) == 4 {
-			return parseYearMonth(date, separator)
+			return parseYearMonth(date, separator, location)
 		}
-		return parseMonthDay(date, separator)
+		return parseMonthDay(date, separator, location)
 	case 3: // year/month/day
-		return parseYearMonthDay(date, separator)
+		return parseYearMonthDay(date, separator, location)
 	default:
 		return time.Time{}, errors.New("unhandled number of smart date components")
 	}
 }
 
-func parseYear(date string) (time.Time, error) {
+func parseYear(date string, location *time.Location) (time.Time, error) {
 	if len(date) != 4 {
 		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
 	}
@@ -57,11 +64,11 @@ func parseYear(date string) (time.Time, error) {
 		return time.Time{}, err
 	}
 
-	return time.Date(year, time.January, 1, 0, 0, 0, 0, time.Local), nil
+	return time.Date(year, time.January, 1, 0, 0, 0, 0, location), nil
 }
 
 // parseYearMonth expects dates in the format 2020/06
-func parseYearMonth(date string, separator rune) (time.Time, error) {
+func parseYearMonth(date string, separator rune, location *time.Location) (time.Time, error) {
 	var format string
 	switch separator {
 	case '/':
@@ -74,7 +81,7 @@ func parseYearMonth(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.ParseInLocation(format, date, location)
 	if err != nil {
 		return time.Time{}, err
 	}
@@ -83,7 +90,7 @@ func parseYearMonth(date string, separator rune) (time.Time, error) {
 }
 
 // parseMonthDaty expected dates in the format 06/22
-func parseMonthDay(date string, separator rune) (time.Time, error) {
+func parseMonthDay(date string, separator rune, location *time.Location) (time.Time, error) {
 	year := time.Now().Year()
 	var format, dateWithYear string
 	switch separator {
@@ -100,7 +107,7 @@ func parseMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, dateWithYear, time.Local)
+	parsed, err := time.ParseInLocation(format, dateWithYear, location)
 	if err != nil {
 		return time.Time{}, err
 	}
@@ -109,7 +116,7 @@ func parseMonthDay(date string, separator rune) (time.Time, error) {
 }
 
 // parseYearMonthDay expects dates in the format 2020/06/22
-func parseYearMonthDay(date string, separator rune) (time.Time, error) {
+func parseYearMonthDay(date string, separator rune, location *time.Location) (time.Time, error) {
 	var format string
 	switch separator {
 	case '/':
@@ -122,7 +129,7 @@ func parseYearMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.ParseInLocation(format, date, location)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From dfc5caa390f9013119268febdf1f116943988771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 31/38] fix: fail when a report cannot be written

---
 cmd/accounts.go |  2 +-
 cmd/balance.go  |  2 +-
 cmd/budget.go   | 36 ++++++++++++++++++------------------
 cmd/common.go   |  8 ++++----
 cmd/payees.go   |  2 +-
 cmd/print.go    |  2 +-
 cmd/root.go     | 10 ++++++++++
 cmd/stats.go    | 20 ++++++++++----------
 cmd/version.go  |  2 +-
 9 files changed, 47 insertions(+), 37 deletions(-)

diff --git a/cmd/accounts.go b/cmd/accounts.go
index 1816f4e..47e68a0 100644
--- a/cmd/accounts.go
+++ b/cmd/accounts.go
@@ -79,6 +79,6 @@ accountsLoop:
 
 func (aj *accountsJournal) report() {
 	for _, a := range aj.accounts {
-		fmt.Println(a)
+		fmt.Fprintln(stdout, a)
 	}
 }
diff --git a/cmd/balance.go b/cmd/balance.go
index 786c23d..4982784 100644
--- a/cmd/balance.go
+++ b/cmd/balance.go
@@ -30,7 +30,7 @@ var balanceCmd = &cobra.Command{
 		report(*bp.journal.Root, flattenTree, collapseOnlyChildren)
 
 		if showBudget {
-			fmt.Println("would print budget here")
+			fmt.Fprintln(stdout, "would print budget here")
 			// report(*bp.journal.BudgetRoot, flattenTree, collapseOnlyChildren)
 		}
 		return nil
diff --git a/cmd/budget.go b/cmd/budget.go
index 1f77312..0757dd5 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -111,39 +111,39 @@ func (bp *budgetProcessor) report() {
 
 	for _, month := range months {
 		budget := bp.budget.Months[month]
-		fmt.Println(month)
+		fmt.Fprintln(stdout, month)
 
 		// Padding
-		fmt.Println()
+		fmt.Fprintln(stdout)
 
 		// Print the funds
-		fmt.Printf("%30s | %20s\n", budget.Income.Name, budget.Income.Amount.DisplayableQuantity(true))
+		fmt.Fprintf(stdout, "%30s | %20s\n", budget.Income.Name, budget.Income.Amount.DisplayableQuantity(true))
 		// fmt.Printf("%30s | %20s\n", budget.ExpenseRoot.Name, budget.ExpenseRoot.Amount.DisplayableQuantity(true))
-		fmt.Printf("%30s | %20s\n", "Overspent in 2020-??", "£??.??")
-		fmt.Printf("%30s | %20s\n", "Budgeted", "£??.??")
-		fmt.Printf("%30s | %20s\n", "Budgeted in the future", "£??.??")
-		fmt.Println("-----------------------------------------------------")
-		fmt.Printf("%30s | %20s\n", "To be budgeted", "£??.??")
+		fmt.Fprintf(stdout, "%30s | %20s\n", "Overspent in 2020-??", "£??.??")
+		fmt.Fprintf(stdout, "%30s | %20s\n", "Budgeted", "£??.??")
+		fmt.Fprintf(stdout, "%30s | %20s\n", "Budgeted in the future", "£??.??")
+		fmt.Fprintln(stdout, "-----------------------------------------------------")
+		fmt.Fprintf(stdout, "%30s | %20s\n", "To be budgeted", "£??.??")
 
 		// Padding
-		fmt.Println()
-		fmt.Println()
+		fmt.Fprintln(stdout)
+		fmt.Fprintln(stdout)
 
-		fmt.Printf("%-30s | %-20s | %-20s | %-20s |\n", "Category", "Budgeted", "Activity", "Available")
-		fmt.Printf("--------------------------------------------------")
-		fmt.Printf("---------------------------------------------------\n")
+		fmt.Fprintf(stdout, "%-30s | %-20s | %-20s | %-20s |\n", "Category", "Budgeted", "Activity", "Available")
+		fmt.Fprintf(stdout, "--------------------------------------------------")
+		fmt.Fprintf(stdout, "---------------------------------------------------\n")
 
 		// Print the envelopes
 		for _, cn := range budget.EnvelopeRoot.SortedChildNames() {
 			envelopeAccount, found := budget.EnvelopeRoot.Children[cn]
 			if !found {
-				fmt.Println("didn't find envelope account", cn)
+				fmt.Fprintln(stdout, "didn't find envelope account", cn)
 				return
 			}
 
 			expenseAccount, found := budget.ExpenseRoot.Children[cn]
 			if !found {
-				fmt.Println("didn't find expense account", cn)
+				fmt.Fprintln(stdout, "didn't find expense account", cn)
 				return
 			}
 
@@ -152,10 +152,10 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Fprintf(stdout, "%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
-		fmt.Println()
+		fmt.Fprintln(stdout)
 	}
 }
 
@@ -164,7 +164,7 @@ func prepareBudget(j *journal.Journal) {
 		j.Root.RemoveEmptyChildren()
 
 		if showBudget {
-			fmt.Println("would remove empty children from budget")
+			fmt.Fprintln(stdout, "would remove empty children from budget")
 			// j.BudgetRoot.RemoveEmptyChildren()
 		}
 	}
diff --git a/cmd/common.go b/cmd/common.go
index 1986710..a7a04d1 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -47,17 +47,17 @@ func report(account journal.Account, flattenTree, shouldCollapseOnlyChildren boo
 
 	if flattenTree {
 		flattened := reporting.FlattenedTree(account, prepender)
-		fmt.Println(flattened)
+		fmt.Fprintln(stdout, flattened)
 	} else {
 		tree := reporting.Tree(account, prepender, shouldCollapseOnlyChildren)
-		fmt.Println(tree)
+		fmt.Fprintln(stdout, tree)
 	}
 
 	// 20x '-' because that is how wide we format the amount to be
-	fmt.Println("--------------------")
+	fmt.Fprintln(stdout, "--------------------")
 
 	// Print the root account's value
-	fmt.Printf("%20s\n", account.Amount.DisplayableQuantity(false))
+	fmt.Fprintf(stdout, "%20s\n", account.Amount.DisplayableQuantity(false))
 }
 
 // dateCheckedTransactionHandler wraps a transaction handler in --begin / --end checks
diff --git a/cmd/payees.go b/cmd/payees.go
index 3200a77..114f640 100644
--- a/cmd/payees.go
+++ b/cmd/payees.go
@@ -91,6 +91,6 @@ payeesLoop:
 
 func (pj *payeesJournal) report() {
 	for _, a := range pj.payees {
-		fmt.Println(a)
+		fmt.Fprintln(stdout, a)
 	}
 }
diff --git a/cmd/print.go b/cmd/print.go
index 8e5f8de..810b302 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -59,6 +59,6 @@ func (pj *printJournal) prepare() {
 
 func (pj *printJournal) report() {
 	for _, t := range pj.transactions {
-		fmt.Println(t)
+		fmt.Fprintln(stdout, t)
 	}
 }
diff --git a/cmd/root.go b/cmd/root.go
index cde0350..13d3183 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,6 +1,8 @@
 package cmd
 
 import (
+	"bufio"
+	"fmt"
 	"os"
 
 	"github.com/rikchilvers/gledger/reporting"
@@ -17,6 +19,8 @@ var (
 	// flag to include only transactions on or before today
 	current bool
 	filters []reporting.Filter
+	// where reports are written, flushed once they are complete
+	stdout = bufio.NewWriter(os.Stdout)
 )
 
 var rootCmd = &cobra.Command{
@@ -52,4 +56,10 @@ func Execute() {
 		// fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
 	}
+
+	// A report which could not be written in full is a failure
+	if err := stdout.Flush(); err != nil {
+		fmt.Fprintln(os.Stderr, "Error:", err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/stats.go b/cmd/stats.go
index 0a5404a..9a4f4e8 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -177,40 +177,40 @@ expenseLoop:
 
 func (js *statisticsJournal) report() {
 	if js.transactionCount == 0 {
-		fmt.Println("No transactions matched arguments.")
+		fmt.Fprintln(stdout, "No transactions matched arguments.")
 		return
 	}
 
 	// Report the files
-	fmt.Printf("Transactions found in %d files:\n", len(js.journalFiles))
+	fmt.Fprintf(stdout, "Transactions found in %d files:\n", len(js.journalFiles))
 	paths := make([]string, 0, len(js.journalFiles))
 	for p := range js.journalFiles {
 		paths = append(paths, p)
 	}
 	sort.Strings(paths)
 	for _, p := range paths {
-		fmt.Printf("  %s\n", p)
+		fmt.Fprintf(stdout, "  %s\n", p)
 	}
 
 	// Report start and end dates
-	fmt.Printf("First transaction:\t%s (%s)\n", js.firstTransactionDate.Format(dateLayout), humanize.Time(js.firstTransactionDate))
-	fmt.Printf("Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
+	fmt.Fprintf(stdout, "First transaction:\t%s (%s)\n", js.firstTransactionDate.Format(dateLayout), humanize.Time(js.firstTransactionDate))
+	fmt.Fprintf(stdout, "Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
 
 	// Report duration
 	duration := js.lastTransactionDate.Sub(js.firstTransactionDate)
 	days := math.Round(duration.Hours() / 24)
-	fmt.Printf("Time period:\t\t%.f days\n", days)
+	fmt.Fprintf(stdout, "Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
 	transactionsPerDay := float64(js.transactionCount) / days
-	fmt.Printf("Transactions:\t\t%d (%.1f per day)\n", js.transactionCount, transactionsPerDay)
+	fmt.Fprintf(stdout, "Transactions:\t\t%d (%.1f per day)\n", js.transactionCount, transactionsPerDay)
 
 	// Report number of unique accounts
-	fmt.Printf("Unique accounts:\t%d\n", len(js.uniqueAccounts))
+	fmt.Fprintf(stdout, "Unique accounts:\t%d\n", len(js.uniqueAccounts))
 
 	// Report number of unique payees
-	fmt.Printf("Unique payees:\t\t%d\n", len(js.uniquePayees))
+	fmt.Fprintf(stdout, "Unique payees:\t\t%d\n", len(js.uniquePayees))
 
 	// Report age of money
-	fmt.Printf("Age of money:\t\t%.f days\n", js.ageOfMoney)
+	fmt.Fprintf(stdout, "Age of money:\t\t%.f days\n", js.ageOfMoney)
 }
diff --git a/cmd/version.go b/cmd/version.go
index 73dccd3..ff797b9 100644
--- a/cmd/version.go
+++ b/cmd/version.go
@@ -15,6 +15,6 @@ var versionCmd = &cobra.Command{
 	Short: "Print the version number of gledger",
 	Long:  `All software has versions. This is gledger's`,
 	Run: func(cmd *cobra.Command, args []string) {
-		fmt.Println("gledger v0.1")
+		fmt.Fprintln(stdout, "gledger v0.1")
 	},
 }
-- 
2.43.0


From 3945181f850927fb7f9f732595796b6883ade03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 32/38] fix: do not report unmatched commodities for
 transactions and budgets without amounts

---
 journal/amount.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index 5bc8d09..97bf386 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -35,9 +35,15 @@ func (a Amount) DisplayableQuantity(withCommodity bool) string {
 	return amount
 }
 
+// A zero amount without a commodity, as in the transactions and budgets that move
+// no money, goes with every commodity
+func (a Amount) isNothing() bool {
+	return a.Quantity == 0 && len(a.Commodity) == 0
+}
+
 // Add adds an amount to this one
 func (a *Amount) Add(other Amount) error {
-	if a.Commodity != other.Commodity {
+	if a.Commodity != other.Commodity && !other.isNothing() {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled addition of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
@@ -47,7 +53,7 @@ func (a *Amount) Add(other Amount) error {
 
 // Subtract subtracts an amount from this one
 func (a *Amount) Subtract(other Amount) error {
-	if a.Commodity != other.Commodity {
+	if a.Commodity != other.Commodity && !other.isNothing() {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled subtraction of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
-- 
2.43.0


From 5f969d30af43e1bd7a375b901e2ebd5c1f77db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 33/38] fix: count a transaction of 0001-01-01 in the
 statistics' first date

---
 cmd/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 9a4f4e8..8514a41 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -78,12 +78,12 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 	js.transactionCount++
 
 	// Check start date
-	if js.firstTransactionDate.IsZero() || t.Date.Before(js.firstTransactionDate) {
+	if js.transactionCount == 1 || t.Date.Before(js.firstTransactionDate) {
 		js.firstTransactionDate = t.Date
 	}
 
 	// Check end date
-	if js.lastTransactionDate.IsZero() || t.Date.After(js.lastTransactionDate) {
+	if js.transactionCount == 1 || t.Date.After(js.lastTransactionDate) {
 		js.lastTransactionDate = t.Date
 	}
 
-- 
2.43.0


From 5c2217d4ef8fbf4eb8b9b634ddd55b4eae3d2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 34/38] fix: count the days between transactions more than 292
 years apart

---
 cmd/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 8514a41..3e8843b 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -197,8 +197,8 @@ func (js *statisticsJournal) report() {
 	fmt.Fprintf(stdout, "Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
 
 	// Report duration
-	duration := js.lastTransactionDate.Sub(js.firstTransactionDate)
-	days := math.Round(duration.Hours() / 24)
+	// (from the seconds between: a time.Duration holds no more than 292 years)
+	days := math.Round(float64(js.lastTransactionDate.Unix()-js.firstTransactionDate.Unix()) / (24 * 60 * 60))
 	fmt.Fprintf(stdout, "Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-- 
2.43.0


From 49690ba2948fea0d29a07c22e9df4dd70a5e8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 35/38] fix: age of money averages the ages of the last ten
 sums spent

The sum of ages overflowed a time.Duration (292 years in all), and from 21
ages on the last eleven were left out of the sum but not of the count.
---
 cmd/stats.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 3e8843b..350f549 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -132,7 +132,7 @@ func (js *statisticsJournal) prepare() {
 	})
 
 	// Calculate age of money
-	ages := make([]time.Duration, 0)
+	ages := make([]float64, 0) // in days
 
 expenseLoop:
 	for _, ek := range expenseKeys {
@@ -144,8 +144,8 @@ expenseLoop:
 				continue
 			}
 
-			duration := ek.Sub(ik)
-			ages = append(ages, duration)
+			age := float64(ek.Unix()-ik.Unix()) / (24 * 60 * 60)
+			ages = append(ages, age)
 
 			// Handle not having enough in the income bucket
 			if expense > income {
@@ -158,21 +158,20 @@ expenseLoop:
 		}
 	}
 
-	rangeCap := 0
-	if len(ages) > 20 {
-		rangeCap = 11
+	// we only care about the final 10
+	if len(ages) > 10 {
+		ages = ages[len(ages)-10:]
 	}
-	var summedAges time.Duration = 0
-	for _, a := range ages[:len(ages)-rangeCap] { // we only care about the final 10
+	summedAges := 0.0
+	for _, a := range ages {
 		summedAges += a
 	}
 
 	// filter arguments could mean there were no transactions to process
-	// so we need to guard against dividing by 0 later
-	count := int64(math.Max(1, float64(len(ages))))
-	summedAges = time.Duration(summedAges.Nanoseconds() / count)
+	// so we need to guard against dividing by 0
+	count := math.Max(1, float64(len(ages)))
 
-	js.ageOfMoney = math.Max(summedAges.Hours()/24, 0)
+	js.ageOfMoney = math.Max(summedAges/count, 0)
 }
 
 func (js *statisticsJournal) report() {
-- 
2.43.0


From 0d23c43e809d698763714411a2fa2596bf0a29e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 36/38] fix: the sum of a transaction's postings wrapped around
 at 64 bits

so that amounts which do not balance were accepted and an elided amount
which does not fit was made up.
---
 journal/amount.go      |  4 ++++
 journal/transaction.go | 13 +++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index 97bf386..e04740e 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -1,9 +1,13 @@
 package journal
 
 import (
+	"errors"
 	"fmt"
 )
 
+// errTooLarge is for sums which do not fit a quantity
+var errTooLarge = errors.New("amount is too large")
+
 // Amount encapsulates the quantity of a specific commodity (e.g. GBP)
 type Amount struct {
 	Commodity string
diff --git a/journal/transaction.go b/journal/transaction.go
index 3b8e383..13654bc 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -3,6 +3,7 @@ package journal
 import (
 	"errors"
 	"fmt"
+	"math/big"
 	"time"
 )
 
@@ -95,7 +96,7 @@ func (t *Transaction) AddPosting(p *Posting) error {
 // Close ensures the transaction balances (assigning an amount to an elided posting as necessary)
 func (t *Transaction) Close() error {
 	// Check the transaction balances
-	sum := int64(0)
+	sum := new(big.Int) // the sum of many postings may not fit a quantity
 	c := ""
 	for _, p := range t.Postings {
 		if p.Amount == nil {
@@ -105,16 +106,20 @@ func (t *Transaction) Close() error {
 		if len(p.Amount.Commodity) > 0 {
 			c = p.Amount.Commodity
 		}
-		sum += p.Amount.Quantity
+		sum.Add(sum, big.NewInt(p.Amount.Quantity))
 	}
 
 	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
-		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+		sum.Neg(sum)
+		if sum.BitLen() > 63 {
+			return errTooLarge
+		}
+		t.postingWithElidedAmount.Amount = NewAmount(c, sum.Int64())
 		return nil
 	}
 
-	if sum != 0 {
+	if sum.Sign() != 0 {
 		return errors.New("transaction does not balance")
 	}
 
-- 
2.43.0


From 748ec964112ec4683a008650f34de6900d324416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 37/38] fix: totals which do not fit 64 bits were reported
 wrapped around

---
 cmd/budget.go     | 35 +++++++++++++++++++++++------------
 journal/amount.go | 12 ++++++++++--
 journal/budget.go |  3 +--
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index 0757dd5..758e4f5 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -21,8 +21,7 @@ var budgetCmd = &cobra.Command{
 			return err
 		}
 		// prepareBalance(bp.journal)
-		bp.report()
-		return nil
+		return bp.report()
 	},
 }
 
@@ -99,7 +98,7 @@ func (bp *budgetProcessor) transactionHandler(t *journal.Transaction, location s
 	return nil
 }
 
-func (bp *budgetProcessor) report() {
+func (bp *budgetProcessor) report() error {
 	// sort the months
 	months := make([]time.Time, 0, len(bp.budget.Months))
 	for month := range bp.budget.Months {
@@ -109,6 +108,22 @@ func (bp *budgetProcessor) report() {
 		return months[i].Before(months[j])
 	})
 
+	// Find out what is available before anything is printed
+	available := make(map[*journal.Account]journal.Amount)
+	for _, month := range months {
+		budget := bp.budget.Months[month]
+		for _, cn := range budget.EnvelopeRoot.SortedChildNames() {
+			envelopeAccount := budget.EnvelopeRoot.Children[cn]
+			amount := envelopeAccount.Amount
+			if expenseAccount, found := budget.ExpenseRoot.Children[cn]; found {
+				if err := amount.Add(expenseAccount.Amount); err != nil {
+					return err
+				}
+			}
+			available[envelopeAccount] = amount
+		}
+	}
+
 	for _, month := range months {
 		budget := bp.budget.Months[month]
 		fmt.Fprintln(stdout, month)
@@ -137,26 +152,22 @@ func (bp *budgetProcessor) report() {
 		for _, cn := range budget.EnvelopeRoot.SortedChildNames() {
 			envelopeAccount, found := budget.EnvelopeRoot.Children[cn]
 			if !found {
-				fmt.Fprintln(stdout, "didn't find envelope account", cn)
-				return
+				return fmt.Errorf("didn't find envelope account %s", cn)
 			}
 
 			expenseAccount, found := budget.ExpenseRoot.Children[cn]
 			if !found {
-				fmt.Fprintln(stdout, "didn't find expense account", cn)
-				return
-			}
-
-			amount := envelopeAccount.Amount
-			if err := amount.Add(expenseAccount.Amount); err != nil {
-				panic(err)
+				return fmt.Errorf("didn't find expense account %s", cn)
 			}
 
+			amount := available[envelopeAccount]
 			fmt.Fprintf(stdout, "%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Fprintln(stdout)
 	}
+
+	return nil
 }
 
 func prepareBudget(j *journal.Journal) {
diff --git a/journal/amount.go b/journal/amount.go
index e04740e..2cea892 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -51,7 +51,11 @@ func (a *Amount) Add(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled addition of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
-	a.Quantity += other.Quantity
+	sum := a.Quantity + other.Quantity
+	if (sum > a.Quantity) != (other.Quantity > 0) {
+		return errTooLarge
+	}
+	a.Quantity = sum
 	return nil
 }
 
@@ -61,6 +65,10 @@ func (a *Amount) Subtract(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled subtraction of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
-	a.Quantity -= other.Quantity
+	difference := a.Quantity - other.Quantity
+	if (difference < a.Quantity) != (other.Quantity > 0) {
+		return errTooLarge
+	}
+	a.Quantity = difference
 	return nil
 }
diff --git a/journal/budget.go b/journal/budget.go
index c930112..06c7ff3 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -67,8 +67,7 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	// Don't add the BudgetRoot to the budget
 	// Instead, roll it in to the EnvelopeRoot
 	if pt == EnvelopePosting && p.AccountPath == BudgetRootID {
-		bm.EnvelopeRoot.Amount.Add(*p.Amount)
-		return nil
+		return bm.EnvelopeRoot.Amount.Add(*p.Amount)
 	}
 
 	// Choose root
-- 
2.43.0


From 4d3f3d0faa6c5fe766aa48aa06b2eef10e755ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 38/38] fix: count how long ago transactions were from today,
 whatever the time of day

---
 cmd/stats.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 350f549..ca81f9d 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -192,8 +192,12 @@ func (js *statisticsJournal) report() {
 	}
 
 	// Report start and end dates
-	fmt.Fprintf(stdout, "First transaction:\t%s (%s)\n", js.firstTransactionDate.Format(dateLayout), humanize.Time(js.firstTransactionDate))
-	fmt.Fprintf(stdout, "Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
+	// (how long ago they were is counted from today, whatever the local time zone and the time of day)
+	now := time.Now()
+	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
+	age := func(date time.Time) string { return humanize.RelTime(date, today, "ago", "from now") }
+	fmt.Fprintf(stdout, "First transaction:\t%s (%s)\n", js.firstTransactionDate.Format(dateLayout), age(js.firstTransactionDate))
+	fmt.Fprintf(stdout, "Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), age(js.lastTransactionDate))
 
 	// Report duration
 	// (from the seconds between: a time.Duration holds no more than 292 years)
-- 
2.43.0

