From 2fcc85910853553d2419a0f2a12ea9362e476c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 01/40] fix: reject dates shorter than five characters instead
 of panicking

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3e9b6cc..2573992 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -123,6 +123,10 @@ func parseDate(content []rune) (time.Time, error) {
 	var date time.Time
 	var err error
 
+	if len(content) < 5 {
+		return time.Time{}, fmt.Errorf("date is malformed: %s", s)
+	}
+
 	switch content[4] {
 	case '-':
 		date, err = time.Parse(dashDateFormat, s)
-- 
2.43.0


From 46993438fa15eb1704daed41f67201586df5fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 02/40] fix: accept trailing whitespace after an elided amount
 and reject a missing one

---
 parser/lexer.go  | 5 +++++
 parser/parser.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index d39606d..cbeb431 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -257,6 +257,11 @@ func (l *lexer) lexPosting() error {
 			return nil
 		}
 
+		// Bail if only whitespace followed the account (i.e. the amount was elided)
+		if l.peek() == eof {
+			return nil
+		}
+
 		// Lex the commodity
 		commodity := l.lexCommodity()
 		if l.consumeSpace() > 0 {
diff --git a/parser/parser.go b/parser/parser.go
index 2573992..c3d39a2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -146,6 +147,10 @@ func parseDate(content []rune) (time.Time, error) {
 }
 
 func parseAmount(content []rune) (int64, error) {
+	if len(content) == 0 {
+		return 0, errors.New("amount is missing")
+	}
+
 	// Handle signs
 	firstRune := content[0]
 	var multiplier int64
-- 
2.43.0


From e411fcfb3bf637e1e8610fb81e05670042d4ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 03/40] fix: reject amounts with a second sign or a sign after
 the decimal point

---
 parser/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c3d39a2..273bb70 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -179,18 +179,18 @@ func parseAmount(content []rune) (int64, error) {
 	var err error
 	if decimalPosition == -1 {
 		// TODO: consider https://stackoverflow.com/a/29255836
-		whole, err = strconv.ParseInt(string(content), 10, 64)
+		whole, err = parseDigits(content)
 		decimal = 0
 
 		if err != nil {
 			return 0, err
 		}
 	} else {
-		whole, err = strconv.ParseInt(string(content[:decimalPosition]), 10, 64)
+		whole, err = parseDigits(content[:decimalPosition])
 		if err != nil {
 			return 0, err
 		}
-		decimal, err = strconv.ParseInt(string(content[decimalPosition+1:]), 10, 64)
+		decimal, err = parseDigits(content[decimalPosition+1:])
 		if err != nil {
 			return 0, err
 		}
@@ -201,6 +201,12 @@ func parseAmount(content []rune) (int64, error) {
 	return quantity, nil
 }
 
+// parseDigits parses an unsigned number (any sign has been dealt with by now)
+func parseDigits(content []rune) (int64, error) {
+	n, err := strconv.ParseUint(string(content), 10, 63)
+	return int64(n), err
+}
+
 func parsePeriod(content []rune) (journal.Period, error) {
 	const budgetDateFormat string = "2006-01"
 
-- 
2.43.0


From 7bef711e6b62944677840e3bc3485399492a2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 04/40] fix: read one decimal digit as tenths and reject more
 than two

---
 parser/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 273bb70..f1d1c7a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -190,10 +190,18 @@ func parseAmount(content []rune) (int64, error) {
 		if err != nil {
 			return 0, err
 		}
-		decimal, err = parseDigits(content[decimalPosition+1:])
+		decimals := content[decimalPosition+1:]
+		if len(decimals) > 2 {
+			return 0, fmt.Errorf("amount has more than two decimal places: %s", string(content))
+		}
+		decimal, err = parseDigits(decimals)
 		if err != nil {
 			return 0, err
 		}
+		if len(decimals) == 1 {
+			// a single digit is tenths, not hundredths
+			decimal *= 10
+		}
 	}
 
 	quantity := multiplier * (whole*100 + decimal)
-- 
2.43.0


From 76c52e23c82c5a314d01bc64320451de67199461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 05/40] fix: reject amounts that overflow instead of wrapping
 around

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f1d1c7a..fc072a3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"time"
@@ -204,6 +205,10 @@ func parseAmount(content []rune) (int64, error) {
 		}
 	}
 
+	if whole > (math.MaxInt64-decimal)/100 {
+		return 0, fmt.Errorf("amount is too large: %s", string(content))
+	}
+
 	quantity := multiplier * (whole*100 + decimal)
 
 	return quantity, nil
-- 
2.43.0


From c80db857cde10e59bac4727e540786d77203cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 06/40] fix: display large amounts exactly

---
 journal/amount.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index c876e15..be079af 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -24,8 +24,14 @@ func (a Amount) String() string {
 
 // DisplayableQuantity formats the Amount's commodity and quantity
 func (a Amount) DisplayableQuantity(withCommodity bool) string {
-	q := float64(a.Quantity) / 100
-	amount := fmt.Sprintf("%.2f", q)
+	// Avoid floating point as it cannot represent large quantities exactly
+	sign := ""
+	q := uint64(a.Quantity)
+	if a.Quantity < 0 {
+		sign = "-"
+		q = -q
+	}
+	amount := fmt.Sprintf("%s%d.%02d", sign, q/100, q%100)
 	if withCommodity {
 		return fmt.Sprintf("%s%s", a.Commodity, amount)
 	}
-- 
2.43.0


From 2708fadf17ae93ac41c0871d19ddc24e63047c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 07/40] fix: keep the first character of header notes that
 follow a single space

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index cbeb431..221d410 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -386,6 +386,8 @@ func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 		}
 
 		if isCommentIndicator(r) {
+			// Leave the indicator for whoever lexes the comment
+			l.backup()
 			return trimSpace(runes)
 		}
 
-- 
2.43.0


From b102d3427a1a0778c92dc9da307e841f5f67e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 08/40] fix: trim comments of leading tabs and of nothing but
 space

---
 parser/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 221d410..b3d046f 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -471,9 +471,10 @@ func trimSpaceStart(runes []rune) []rune {
 		return runes
 	}
 
-	index := 0
+	// If there is nothing but space, drop everything
+	index := len(runes)
 	for i, r := range runes {
-		if r != ' ' {
+		if r != ' ' && r != '\t' {
 			index = i
 			break
 		}
-- 
2.43.0


From 10cb9d6883d1f85fe91c7beb631e6e3fdc39a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 09/40] fix: do not dereference nil for indented lines outside
 of a transaction

---
 parser/transactionbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 317b6f3..b8fa70b 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -48,6 +48,14 @@ func (tb *transactionBuilder) beginTransaction(t transactionType) {
 }
 
 func (tb *transactionBuilder) build(t itemType, content []rune) error {
+	// If no transaction has begun, there is nothing to build
+	if tb.currentPosting == nil {
+		if t == commentItem {
+			return nil
+		}
+		return fmt.Errorf("unexpected %s outside of a transaction", t)
+	}
+
 	switch tb.transactionType {
 	case normalTransaction:
 		if err := tb.buildNormalTransaction(tb.transaction, t, content); err != nil {
-- 
2.43.0


From 46f1b0c352c17e6d420d7eee9f9b22a54cbd44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 10/40] fix: reject posting lines that cannot be lexed instead
 of dropping them

---
 parser/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index b3d046f..6ea5721 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -280,8 +280,10 @@ func (l *lexer) lexPosting() error {
 		return nil
 	}
 
-	// If we didn't lex anything, we should reset the parser
-	l.backup()
+	// Whitespace on its own is fine but anything else should not be dropped silently
+	if firstRune != eof {
+		return errors.New("unexpected posting during lexing")
+	}
 
 	return nil
 }
-- 
2.43.0


From 70fa1ad9799ab9a20dcf9990ec0392e63deb1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 11/40] fix: report a second elided amount instead of dropping
 its posting

---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index b8fa70b..d0612ef 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -119,7 +119,9 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 		// Accounts start a posting, so check if we need to start a new one
 		if len(tb.currentPosting.AccountPath) != 0 {
-			t.AddPosting(tb.currentPosting)
+			if err := t.AddPosting(tb.currentPosting); err != nil {
+				return err
+			}
 			tb.currentPosting = journal.NewPosting()
 		}
 
-- 
2.43.0


From c92816b3b3fb4d003b76077d9523f635b2db18a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 12/40] fix: give an elided amount a value even if it is zero

---
 journal/transaction.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 6fd9857..1d82438 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -108,11 +108,11 @@ func (t *Transaction) Close() error {
 		sum += p.Amount.Quantity
 	}
 
-	if sum != 0 {
-		if t.postingWithElidedAmount == nil {
-			return errors.New("transaction does not balance")
-		}
+	if sum != 0 && t.postingWithElidedAmount == nil {
+		return errors.New("transaction does not balance")
+	}
 
+	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
 	}
-- 
2.43.0


From b5e740097276904920542efc9a7576ac206644bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 13/40] fix: do not add a nameless posting to transactions
 without postings

---
 parser/transactionbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index d0612ef..879f3fc 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -215,8 +215,8 @@ func (tb *transactionBuilder) endTransaction(p Parser) error {
 }
 
 func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) error {
-	// Make sure we add the last open posting
-	if tb.currentPosting != nil {
+	// Make sure we add the last open posting (if the transaction has any)
+	if tb.currentPosting != nil && len(tb.currentPosting.AccountPath) != 0 {
 		if err := t.AddPosting(tb.currentPosting); err != nil {
 			return err
 		}
-- 
2.43.0


From 4443a2de381bec3a025a3fd74f7ea4d9b0f2892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 14/40] fix: attach notes of periodic transactions to the
 periodic transaction

---
 parser/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 879f3fc..fa58488 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -80,7 +80,7 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 		if len(tb.currentPosting.AccountPath) != 0 {
 			tb.currentPosting.AddComment(string(content))
 		} else {
-			tb.transaction.AddNote(string(content))
+			t.AddNote(string(content))
 		}
 	case dateItem:
 		date, err := parseDate(content)
-- 
2.43.0


From 4c7670a1d4c6eae13b4b42358692b456766d71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 15/40] fix: attribute transactions to the right file after a
 nested include

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index fc072a3..92695f1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -84,7 +84,7 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 		}
 
 		// Drop the file from the slice
-		p.journalFiles = p.journalFiles[:1]
+		p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
 	case dateItem:
 		// This will start a transaction so check if we need to close a previous one
 		// in case there is no empty line between transactions
-- 
2.43.0


From 291e292aad21fc225d8e529bbaaae6b171dce71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 16/40] fix: end the open transaction before reading an
 included file

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 92695f1..ec0f429 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -66,6 +66,11 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 	case includeItem:
 		path := string(content)
 
+		// The transaction before the directive belongs to the including file
+		if err := p.transactionBuilder.endTransaction(*p); err != nil {
+			return err
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From a6fa09b3729c8d7bc277752b51389082ac2c7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 17/40] fix: reject include cycles instead of recursing until
 files run out

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index ec0f429..a1278f8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -71,6 +72,13 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			return err
 		}
 
+		// Including a file we are already in the middle of would never end
+		for _, f := range p.journalFiles {
+			if filepath.Clean(f) == filepath.Clean(path) {
+				return fmt.Errorf("file includes itself: %s", path)
+			}
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From d6787fbe72effc541c7b5981af8bfef055c76fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 18/40] fix: do not hide accounts whose zero parents are
 removed

---
 journal/account.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index 15a2447..45858c1 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -189,17 +189,11 @@ func (a *Account) findAccounts(matcher func(a Account) bool, found []*Account) [
 	return found
 }
 
+// RemoveEmptyChildren removes descendents with no amount (unless there is an amount beneath them)
 func (a *Account) RemoveEmptyChildren() {
-	matcher := func(a Account) bool {
-		return a.Amount.Quantity == 0
-	}
-	matching := a.FindAccounts(matcher)
-	for _, m := range matching {
-		if m.Name == RootID {
-			continue
-		}
-		m.Unlink()
-	}
+	a.RemoveChildren(func(a Account) bool {
+		return a.Amount.Quantity != 0
+	})
 }
 
 // Unlink removes this account from it's parents
-- 
2.43.0


From ee2e60e2d627ca18893455bc538ef9c3297a0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 19/40] fix: do not share path components between sibling
 accounts

---
 journal/account.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/journal/account.go b/journal/account.go
index 45858c1..b20c068 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -101,7 +101,8 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
 		child.PathComponents = []string{components[0]}
 	} else {
-		child.PathComponents = append(parent.PathComponents, components[0])
+		// Copy the components so that siblings do not share (and overwrite) them
+		child.PathComponents = append(append([]string{}, parent.PathComponents...), components[0])
 	}
 
 	child.Path = child.CreatePath()
-- 
2.43.0


From 3196305e3b50edadf597afd72420e200f30f64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 20/40] fix: do not panic when budgeting postings to the bare
 Expenses account

---
 journal/account.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/journal/account.go b/journal/account.go
index b20c068..ee8fc31 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -113,6 +113,11 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 // FindOrCreateAccount searches the Account's children for one matching the components,
 // creating children as necessary if it does not find matching ones
 func (a *Account) FindOrCreateAccount(components []string) *Account {
+	// Nothing to look for beneath this account
+	if len(components) == 0 {
+		return a
+	}
+
 	child, remainingComponents := a.findChild(components)
 
 	// If there were no remaining accounts, we found the deepest
-- 
2.43.0


From 219db7a322031c48b1a87910b604b1707cdf95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 21/40] fix: set the commodity of parent budget accounts
 (avoids spurious warnings)

---
 journal/budget.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/journal/budget.go b/journal/budget.go
index da2cb3c..c5e1235 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -99,11 +99,23 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 
 	// Make the envelope account
 	envelopeAccount := bm.EnvelopeRoot.FindOrCreateAccount(pathComponents)
-	envelopeAccount.Amount.Commodity = p.Amount.Commodity
 
 	// Make the expense account
 	expenseAccount := bm.ExpenseRoot.FindOrCreateAccount(pathComponents)
-	expenseAccount.Amount.Commodity = p.Amount.Commodity
+
+	// Set the commodity of both accounts and their ancestors
+	setCommodity := func(a *Account) error {
+		if a.Amount.Commodity == "" {
+			a.Amount.Commodity = p.Amount.Commodity
+		}
+		return nil
+	}
+	if err := envelopeAccount.WalkAncestors(setCommodity); err != nil {
+		return err
+	}
+	if err := expenseAccount.WalkAncestors(setCommodity); err != nil {
+		return err
+	}
 
 	if pt == EnvelopePosting {
 		// Add to the envelope account
-- 
2.43.0


From c13d6ee6f49d18945eff536a439c19985b23b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 22/40] fix: show budgeted and activity under their own
 headings

---
 cmd/budget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index a982ea5..e2adaf1 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -152,7 +152,7 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, expenseAccount.Amount, envelopeAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Println()
-- 
2.43.0


From 83cde6c7c2433594c87f042f8b37a85a95c85aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 23/40] fix: keep same-day transactions in journal order when
 printing

---
 cmd/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index 19e4f94..fef79a0 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -52,7 +52,7 @@ func (pj *printJournal) transactionHandler(t *journal.Transaction, _ string) err
 }
 
 func (pj *printJournal) prepare() {
-	sort.Slice(pj.transactions, func(i, j int) bool {
+	sort.SliceStable(pj.transactions, func(i, j int) bool {
 		return pj.transactions[i].Date.Before(pj.transactions[j].Date)
 	})
 }
-- 
2.43.0


From 6ef9243345251fddb25d410ae7e5fb7f3d29e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 24/40] fix: list journal files in a stable order in statistics

---
 cmd/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/stats.go b/cmd/stats.go
index 98c7926..307bbd1 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -183,7 +183,12 @@ func (js *statisticsJournal) report() {
 
 	// Report the files
 	fmt.Printf("Transactions found in %d files:\n", len(js.journalFiles))
+	paths := make([]string, 0, len(js.journalFiles))
 	for p := range js.journalFiles {
+		paths = append(paths, p)
+	}
+	sort.Strings(paths)
+	for _, p := range paths {
 		fmt.Printf("  %s\n", p)
 	}
 
-- 
2.43.0


From 410c3c21ff084115a6972916c0f0d2c136435326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 25/40] fix: process matched postings in journal order rather
 than map order

---
 cmd/common.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 94d9ae3..70137b0 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -154,8 +154,10 @@ func checkAgainstFilters(t *journal.Transaction) (matchedTransaction bool, posti
 			matchedPostings[p] = true
 		}
 	}
-	for k := range matchedPostings {
-		postings = append(postings, k)
+	for _, p := range t.Postings {
+		if matchedPostings[p] {
+			postings = append(postings, p)
+		}
 	}
 
 	return false, postings, nil
-- 
2.43.0


From 6d02d7b9779b0e96d36191aa19e4a8e1fcd3ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 26/40] fix: do not divide by zero days in statistics

---
 cmd/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 307bbd1..c16e724 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -202,7 +202,7 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-	transactionsPerDay := float64(js.transactionCount) / days
+	transactionsPerDay := float64(js.transactionCount) / math.Max(1, days)
 	fmt.Printf("Transactions:\t\t%d (%.1f per day)\n", js.transactionCount, transactionsPerDay)
 
 	// Report number of unique accounts
-- 
2.43.0


From 82e1c3a466ba76c25469a472803aba16a221b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 27/40] fix: average the final ten ages of money rather than
 all but the final eleven

---
 cmd/stats.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index c16e724..d55e483 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -158,12 +158,12 @@ expenseLoop:
 		}
 	}
 
-	rangeCap := 0
-	if len(ages) > 20 {
-		rangeCap = 11
+	// we only care about the final 10
+	if len(ages) > 10 {
+		ages = ages[len(ages)-10:]
 	}
 	var summedAges time.Duration = 0
-	for _, a := range ages[:len(ages)-rangeCap] { // we only care about the final 10
+	for _, a := range ages {
 		summedAges += a
 	}
 
-- 
2.43.0


From b809d7f8e52138c35cd63897182ceeadb3ab5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 28/40] fix: reject empty filter arguments instead of panicking

---
 reporting/filter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reporting/filter.go b/reporting/filter.go
index 236b1da..e1b904e 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -1,6 +1,7 @@
 package reporting
 
 import (
+	"errors"
 	"regexp"
 	"unicode"
 
@@ -32,6 +33,10 @@ type Filter struct {
 func NewFilter(arg string) (Filter, error) {
 	filter := Filter{}
 
+	if len(arg) == 0 {
+		return filter, errors.New("filter is empty")
+	}
+
 	switch []rune(arg)[0] {
 	case '@':
 		filter.FilterType = PayeeFilter
-- 
2.43.0


From 201720cc471a8ee3aad938477adf1203b8e71274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 29/40] fix: compare --begin and --end as calendar dates in
 every time zone

---
 cmd/common.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/common.go b/cmd/common.go
index 70137b0..a240632 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -97,6 +97,12 @@ func dateCheckedFilteringTransactionHandler(handler func(t *journal.Transaction,
 	}
 }
 
+// calendarDate converts a local date to the representation transaction dates use,
+// so that comparing the two does not depend on the time zone
+func calendarDate(t time.Time) time.Time {
+	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+}
+
 func withinDateRange(t *journal.Transaction) (bool, error) {
 	var err error
 	var start, end time.Time
@@ -106,6 +112,7 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		start = calendarDate(start)
 	}
 
 	if len(endDate) > 0 && !current {
@@ -113,6 +120,7 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		end = calendarDate(end)
 	}
 
 	if current {
-- 
2.43.0


From 5f90cb0c20406ef62f255e2cd30f3bcb2292c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 30/40] fix: do not include tomorrow's transactions in
 --current

---
 cmd/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index a240632..1a4764a 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -125,7 +125,7 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 
 	if current {
 		start = time.Time{}
-		end = time.Now().AddDate(0, 0, 1)
+		end = calendarDate(time.Now()).AddDate(0, 0, 1)
 	}
 
 	withinRange := (t.Date.Equal(start) || t.Date.After(start)) && (end.IsZero() || t.Date.Before(end))
-- 
2.43.0


From 6f33c4015734dc17eca832d25d322dac4d907bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 31/40] fix: say where the error is when the last transaction
 is invalid

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6ea5721..f7c5f82 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -85,7 +85,7 @@ func (l *lexer) lex() error {
 				// Let the parser know we have reached the end of the file
 				parseError := l.parser(eofItem, nil)
 				if parseError != nil {
-					return parseError
+					return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
 				}
 				break
 			}
-- 
2.43.0


From 17f8cc6912ccdd4cbabf23f0fda613198e738c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 32/40] fix: parse --begin and --end in the time zone of
 transaction dates (UTC) Midnight does not exist on every date in every local
 time zone, which moved the bounds to the day before.

---
 cmd/common.go   |  9 +++------
 parser/dates.go | 30 ++++++++++++++++++------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 1a4764a..5a766fa 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -97,8 +97,7 @@ func dateCheckedFilteringTransactionHandler(handler func(t *journal.Transaction,
 	}
 }
 
-// calendarDate converts a local date to the representation transaction dates use,
-// so that comparing the two does not depend on the time zone
+// calendarDate converts a local time's date to the representation transaction dates use
 func calendarDate(t time.Time) time.Time {
 	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
 }
@@ -108,19 +107,17 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 	var start, end time.Time
 
 	if len(beginDate) > 0 && !current {
-		start, err = parser.ParseSmartDate(beginDate)
+		start, err = parser.ParseSmartDateInLocation(beginDate, time.UTC)
 		if err != nil {
 			return false, err
 		}
-		start = calendarDate(start)
 	}
 
 	if len(endDate) > 0 && !current {
-		end, err = parser.ParseSmartDate(endDate)
+		end, err = parser.ParseSmartDateInLocation(endDate, time.UTC)
 		if err != nil {
 			return false, err
 		}
-		end = calendarDate(end)
 	}
 
 	if current {
diff --git a/parser/dates.go b/parser/dates.go
index ce7fb68..5a53589 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -8,7 +8,13 @@ import (
 	"time"
 )
 
+// ParseSmartDate parses dates in the formats below to midnight in the local time zone
 func ParseSmartDate(date string) (time.Time, error) {
+	return ParseSmartDateInLocation(date, time.Local)
+}
+
+// ParseSmartDateInLocation parses dates in the formats below to midnight in the given location
+func ParseSmartDateInLocation(date string, loc *time.Location) (time.Time, error) {
 	/* Mon Jan 2 15:04:05 MST 2006
 	04 - 2006
 	07 - 2006/01
@@ -34,20 +40,20 @@ func ParseSmartDate(date string) (time.Time, error) {
 
 	switch len(components) {
 	case 1: // year
-		return parseYear(date)
+		return parseYear(date, loc)
 	case 2: // year/month or month/day
 		if len(components[0]) == 4 {
-			return parseYearMonth(date, separator)
+			return parseYearMonth(date, separator, loc)
 		}
-		return parseMonthDay(date, separator)
+		return parseMonthDay(date, separator, loc)
 	case 3: // year/month/day
-		return parseYearMonthDay(date, separator)
+		return parseYearMonthDay(date, separator, loc)
 	default:
 		return time.Time{}, errors.New("unhandled number of smart date components")
 	}
 }
 
-func parseYear(date string) (time.Time, error) {
+func parseYear(date string, loc *time.Location) (time.Time, error) {
 	if len(date) != 4 {
 		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
 	}
@@ -57,11 +63,11 @@ func parseYear(date string) (time.Time, error) {
 		return time.Time{}, err
 	}
 
-	return time.Date(year, time.January, 1, 0, 0, 0, 0, time.Local), nil
+	return time.Date(year, time.January, 1, 0, 0, 0, 0, loc), nil
 }
 
 // parseYearMonth expects dates in the format 2020/06
-func parseYearMonth(date string, separator rune) (time.Time, error) {
+func parseYearMonth(date string, separator rune, loc *time.Location) (time.Time, error) {
 	var format string
 	switch separator {
 	case '/':
@@ -74,7 +80,7 @@ func parseYearMonth(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.ParseInLocation(format, date, loc)
 	if err != nil {
 		return time.Time{}, err
 	}
@@ -83,7 +89,7 @@ func parseYearMonth(date string, separator rune) (time.Time, error) {
 }
 
 // parseMonthDaty expected dates in the format 06/22
-func parseMonthDay(date string, separator rune) (time.Time, error) {
+func parseMonthDay(date string, separator rune, loc *time.Location) (time.Time, error) {
 	year := time.Now().Year()
 	var format, dateWithYear string
 	switch separator {
@@ -100,7 +106,7 @@ func parseMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, dateWithYear, time.Local)
+	parsed, err := time.ParseInLocation(format, dateWithYear, loc)
 	if err != nil {
 		return time.Time{}, err
 	}
@@ -109,7 +115,7 @@ func parseMonthDay(date string, separator rune) (time.Time, error) {
 }
 
 // parseYearMonthDay expects dates in the format 2020/06/22
-func parseYearMonthDay(date string, separator rune) (time.Time, error) {
+func parseYearMonthDay(date string, separator rune, loc *time.Location) (time.Time, error) {
 	var format string
 	switch separator {
 	case '/':
@@ -122,7 +128,7 @@ func parseYearMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.ParseInLocation(format, date, loc)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From 27627fc40b70ff79d3d2b401293068279b2e796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 33/40] fix: reject signs in --begin and --end years

---
 parser/dates.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/parser/dates.go b/parser/dates.go
index 5a53589..9e215b0 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"errors"
 	"fmt"
-	"strconv"
 	"strings"
 	"time"
 )
@@ -58,12 +57,8 @@ func parseYear(date string, loc *time.Location) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
 	}
 
-	year, err := strconv.Atoi(date)
-	if err != nil {
-		return time.Time{}, err
-	}
-
-	return time.Date(year, time.January, 1, 0, 0, 0, 0, loc), nil
+	// Unlike strconv.Atoi, this does not accept signs
+	return time.ParseInLocation("2006", date, loc)
 }
 
 // parseYearMonth expects dates in the format 2020/06
-- 
2.43.0


From ddac9c778383a31266afa85850e0fed7d2e92a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 34/40] fix: read lines longer than the reader's buffer

---
 parser/lexer.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index f7c5f82..8c4bc0d 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"path/filepath"
 	"unicode"
 	"unicode/utf8"
@@ -64,22 +63,40 @@ func newLexer(reader io.Reader, locationHint string, parser itemParser) lexer {
 
 // only used during testing
 func (l *lexer) ingest() error {
-	line, isPrefix, err := l.reader.ReadLine()
+	line, err := l.readLine()
 	if err != nil {
 		return err
 	}
-	if isPrefix {
-		log.Fatalln("Unhandled split line (todo)")
-	}
 	l.input = line
 	return nil
 }
 
+// Reads a whole line, even if it is longer than the reader's buffer
+func (l *lexer) readLine() ([]byte, error) {
+	line, isPrefix, err := l.reader.ReadLine()
+	if err != nil || !isPrefix {
+		return line, err
+	}
+
+	whole := append([]byte{}, line...)
+	for isPrefix {
+		line, isPrefix, err = l.reader.ReadLine()
+		if err == io.EOF {
+			break
+		}
+		if err != nil {
+			return nil, err
+		}
+		whole = append(whole, line...)
+	}
+	return whole, nil
+}
+
 // Lexes the file line by line
 func (l *lexer) lex() error {
 	l.currentLine = 1
 	for {
-		line, isPrefix, err := l.reader.ReadLine()
+		line, err := l.readLine()
 		if err != nil {
 			if err.Error() == "EOF" {
 				// Let the parser know we have reached the end of the file
@@ -91,9 +108,6 @@ func (l *lexer) lex() error {
 			}
 			return err
 		}
-		if isPrefix {
-			log.Fatalln("Unhandled split line (todo)")
-		}
 
 		// Reset the positions
 		l.pos = 0
-- 
2.43.0


From 8769871b2e9e7f3123c309de1ae86c7509cba33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 35/40] fix: reject unhandled periods instead of budgeting for
 January of year 1

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a1278f8..ec2f888 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -242,7 +242,7 @@ func parsePeriod(content []rune) (journal.Period, error) {
 	// Try to cast to a budget date
 	date, err := time.Parse(budgetDateFormat, s)
 	if err != nil {
-		return p, nil
+		return p, err
 	}
 
 	p.StartDate = date
-- 
2.43.0


From e0a1f4f65200f3a3a44c43dc1a786ad1b056d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 36/40] fix: do not take the decimal point of an amount for
 part of its commodity

---
 parser/lexer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 8c4bc0d..1a0c3d8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -278,7 +278,15 @@ func (l *lexer) lexPosting() error {
 
 		// Lex the commodity
 		commodity := l.lexCommodity()
-		if l.consumeSpace() > 0 {
+		spaces := l.consumeSpace()
+		if n := len(commodity); n > 0 && commodity[n-1] == '.' && spaces == 0 {
+			// A point can end an abbreviation (e.g. Rs.500) but otherwise
+			// it belongs to an amount without whole units (e.g. .50 or £.50)
+			if n == 1 || !unicode.IsLetter(commodity[n-2]) {
+				return errors.New("no digits before the decimal point of the amount")
+			}
+		}
+		if spaces > 0 {
 			commodity = append(commodity, ' ')
 		}
 		if err := l.parser(commodityItem, commodity); err != nil {
-- 
2.43.0


From 163bdb220b604a024d7901f055189c42dab0e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 37/40] fix: do not let overflowing sums make a transaction
 balance

---
 journal/transaction.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 1d82438..9923ef2 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -3,6 +3,7 @@ package journal
 import (
 	"errors"
 	"fmt"
+	"math/big"
 	"time"
 )
 
@@ -95,7 +96,8 @@ func (t *Transaction) AddPosting(p *Posting) error {
 // Close ensures the transaction balances (assigning an amount to an elided posting as necessary)
 func (t *Transaction) Close() error {
 	// Check the transaction balances
-	sum := int64(0)
+	// (the sum of large amounts might not fit an int64, even if they balance)
+	sum := new(big.Int)
 	c := ""
 	for _, p := range t.Postings {
 		if p.Amount == nil {
@@ -105,16 +107,21 @@ func (t *Transaction) Close() error {
 		if len(p.Amount.Commodity) > 0 {
 			c = p.Amount.Commodity
 		}
-		sum += p.Amount.Quantity
+		sum.Add(sum, big.NewInt(p.Amount.Quantity))
 	}
 
-	if sum != 0 && t.postingWithElidedAmount == nil {
+	if sum.Sign() != 0 && t.postingWithElidedAmount == nil {
 		return errors.New("transaction does not balance")
 	}
 
 	if t.postingWithElidedAmount != nil {
+		sum.Neg(sum)
+		if !sum.IsInt64() {
+			return errors.New("elided amount is too large")
+		}
+
 		// NB: setting the commodity like this will not work with multiple currencies
-		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+		t.postingWithElidedAmount.Amount = NewAmount(c, sum.Int64())
 	}
 
 	return nil
-- 
2.43.0


From e2013657c8bcaccf2639ffa2b244a2f35dbd1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 38/40] fix: do not let the sum of ages overflow in the age of
 money

---
 cmd/stats.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index d55e483..5d572f9 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -162,17 +162,17 @@ expenseLoop:
 	if len(ages) > 10 {
 		ages = ages[len(ages)-10:]
 	}
-	var summedAges time.Duration = 0
+	// the sum of ages may not fit in a time.Duration
+	summedHours := 0.0
 	for _, a := range ages {
-		summedAges += a
+		summedHours += a.Hours()
 	}
 
 	// filter arguments could mean there were no transactions to process
 	// so we need to guard against dividing by 0 later
-	count := int64(math.Max(1, float64(len(ages))))
-	summedAges = time.Duration(summedAges.Nanoseconds() / count)
+	count := math.Max(1, float64(len(ages)))
 
-	js.ageOfMoney = math.Max(summedAges.Hours()/24, 0)
+	js.ageOfMoney = math.Max(summedHours/count/24, 0)
 }
 
 func (js *statisticsJournal) report() {
-- 
2.43.0


From 8ad1daff53aeceef60031027cc233a408ed66291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 39/40] fix: count the days of periods longer than 292 years

---
 cmd/stats.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 5d572f9..c40ee74 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -112,6 +112,12 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 	return nil
 }
 
+// daysBetween does not use time.Duration because it cannot hold more than 292 years
+func daysBetween(start, end time.Time) float64 {
+	const secondsPerDay = 24 * 60 * 60
+	return math.Round(float64(end.Unix()-start.Unix()) / secondsPerDay)
+}
+
 func (js *statisticsJournal) prepare() {
 	// Sort income
 	incomeKeys := make([]time.Time, 0, len(js.incomeBuckets))
@@ -132,7 +138,7 @@ func (js *statisticsJournal) prepare() {
 	})
 
 	// Calculate age of money
-	ages := make([]time.Duration, 0)
+	ages := make([]float64, 0)
 
 expenseLoop:
 	for _, ek := range expenseKeys {
@@ -144,8 +150,7 @@ expenseLoop:
 				continue
 			}
 
-			duration := ek.Sub(ik)
-			ages = append(ages, duration)
+			ages = append(ages, daysBetween(ik, ek))
 
 			// Handle not having enough in the income bucket
 			if expense > income {
@@ -162,17 +167,16 @@ expenseLoop:
 	if len(ages) > 10 {
 		ages = ages[len(ages)-10:]
 	}
-	// the sum of ages may not fit in a time.Duration
-	summedHours := 0.0
+	summedDays := 0.0
 	for _, a := range ages {
-		summedHours += a.Hours()
+		summedDays += a
 	}
 
 	// filter arguments could mean there were no transactions to process
 	// so we need to guard against dividing by 0 later
 	count := math.Max(1, float64(len(ages)))
 
-	js.ageOfMoney = math.Max(summedHours/count/24, 0)
+	js.ageOfMoney = math.Max(summedDays/count, 0)
 }
 
 func (js *statisticsJournal) report() {
@@ -197,8 +201,7 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
 
 	// Report duration
-	duration := js.lastTransactionDate.Sub(js.firstTransactionDate)
-	days := math.Round(duration.Hours() / 24)
+	days := daysBetween(js.firstTransactionDate, js.lastTransactionDate)
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-- 
2.43.0


From bad932fe0b575756b79001b088845595d35584ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 40/40] fix: do not take the part of a line read before a read
 error for a line

bufio.Reader.ReadLine returns what it has of a line without the error that
ended it, so that a partial line was parsed as if it were whole, and the
error was lost if reading went on after it.
---
 parser/lexer.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1a0c3d8..9350fb2 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -71,25 +71,23 @@ func (l *lexer) ingest() error {
 	return nil
 }
 
-// Reads a whole line, even if it is longer than the reader's buffer
+// Reads a whole line, however long it is, without its line ending
 func (l *lexer) readLine() ([]byte, error) {
-	line, isPrefix, err := l.reader.ReadLine()
-	if err != nil || !isPrefix {
-		return line, err
+	line, err := l.reader.ReadBytes('\n')
+	if err != nil {
+		// The last line of a file need not end with a newline but the part of
+		// a line read before any other error is not a line
+		if err == io.EOF && len(line) > 0 {
+			return line, nil
+		}
+		return nil, err
 	}
 
-	whole := append([]byte{}, line...)
-	for isPrefix {
-		line, isPrefix, err = l.reader.ReadLine()
-		if err == io.EOF {
-			break
-		}
-		if err != nil {
-			return nil, err
-		}
-		whole = append(whole, line...)
+	line = line[:len(line)-1]
+	if len(line) > 0 && line[len(line)-1] == '\r' {
+		line = line[:len(line)-1]
 	}
-	return whole, nil
+	return line, nil
 }
 
 // Lexes the file line by line
-- 
2.43.0

