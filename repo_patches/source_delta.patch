From be34f68f615e1b7c468c1afe33287ea44bc5dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 01/14] fix: reject indexed jumps to forward-referenced labels

JMP LABEL,X with a label defined later passed the addressing mode check and
was assembled with a negative error code as its opcode byte (0xF3).
---
 src/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2a2bc35..1f45ce6 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -560,8 +560,9 @@ int parse_forward_ref_addr_mode(struct Lexer *lexer, struct Instruction *instr)
 	if (is_branch(instr->mnemonic)) {
 		instr->addr_bitflag = addr_mode & ADDR_MODE_RELATIVE;
 	} else if (instr->mnemonic == JMP) {
-		// JMP has two modes, so we AND with the FIELD!!!
-		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD;
+		// JMP has two modes, so we AND with its own bitfield, which
+		// excludes the indexed absolute modes
+		instr->addr_bitflag = addr_mode & instr->addr_bitfield;
 	} else if (instr->mnemonic == JSR) {
 		// JSR has only one mode
 		instr->addr_bitflag = addr_mode & ADDR_MODE_ABSOLUTE;
-- 
2.43.0


From 2e0352f2faa77d47753bf95ce1aed836549d864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 02/14] fix: reject surplus tokens after an indexed operand

LDA $1000,Y X was accepted, and even assembled as LDA $1000,X. The token
tree in parser.h requires the line to end after the index register.
---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 1f45ce6..f495b37 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -111,8 +111,11 @@ int parse_instr_tree(struct Lexer *lexer, int index)
 			// OPERAND,X
 			// OPERAND,Y
 			if (seq[index]->type == TOKEN_X_REGISTER ||
-			    seq[index]->type == TOKEN_Y_REGISTER)
-				return PARSER_SUCCESS;
+			    seq[index]->type == TOKEN_Y_REGISTER) {
+				index++;
+				if (seq[index]->type == TOKEN_NULL)
+					return PARSER_SUCCESS;
+			}
 		}
 	}
 	// #
-- 
2.43.0


From 3789384035ec956027d9c348343a0917b6a18626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 03/14] fix: report lines that have too many tokens

The lexer leaves the error message of such a line to the parser, but main()
aborted before parsing, so the assembly failed without any message.
---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a2dcd8f..dfecf8e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -187,7 +187,10 @@ int main(int argc, char *argv[])
 	int total_bytes = 0;
 	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
-		if (IS_ERROR(return_code))
+		// parse_line() reports the first bad token of a line with too
+		// many tokens
+		if (IS_ERROR(return_code) &&
+		    return_code != ERROR_TOO_MANY_TOKENS)
 			ABORT_ASSEMBLY();
 
 		return_code = parse_line(lexer);
-- 
2.43.0


From 730dcb8ad08ee5691a4c322559b154e2f6a49e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 04/14] fix: reject literals that overflow 64 bits

The value of a long literal wrapped around, so $10000000000000001 was
accepted as 1 instead of being too big.
---
 src/lexer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer.c b/src/lexer.c
index cfeecb7..907ee41 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -359,6 +359,9 @@ int lex_literal(const char *literal, struct Token *tk)
 		if (char_value != ERROR_ILLEGAL_CHAR) {
 			total *= base;
 			total += char_value;
+			// stay above the limit instead of overflowing
+			if (total > 0xFFFF)
+				total = 0x10000;
 			num_chars++;
 			curr++;
 		} else if (!is_end_of_token(*curr)) {
-- 
2.43.0


From 22cc35428ce7b134b1f40e2a059987168a668d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 05/14] fix: do not write placeholder bytes at a stale file
 position

The placeholder of a forward reference was written where the last write had
ended, not at the program counter. After an origin change it overwrote other
instructions or extended the file. generate_code() already writes a placeholder
at the right place.
---
 src/main.c | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index dfecf8e..0f30d4b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -220,10 +220,6 @@ int main(int argc, char *argv[])
 		                               symtab);
 		if (IS_ERROR(operand_status))
 			ABORT_ASSEMBLY();
-		else if (operand_status == BRANCH_FORWARD_REFERENCE)
-			written_bytes = 2;
-		else if (operand_status == JUMP_FORWARD_REFERENCE)
-			written_bytes = 3;
 
 		return_code = parse_addr_mode(lexer, instr, operand,
 		                             operand_status);
@@ -235,12 +231,7 @@ int main(int argc, char *argv[])
 				ABORT_ASSEMBLY();
 			if (IS_ERROR(add_forward_ref(unresolved, ref)))
 				ABORT_ASSEMBLY();
-
-			// write dummy bytes
-			fputc(0x00, outf);
-			fputc(0x00, outf);
-			if (written_bytes == 3)
-				fputc(0x00, outf);
+			// generate_code() writes the placeholder bytes below
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From 348e89f4a3c16fb66888ae9311f347178cbc4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 06/14] fix: reject branch displacements that do not fit in one
 byte

The literal of BNE $1234 was silently truncated to its low byte.
---
 src/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index f495b37..43a9d7b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -637,9 +637,10 @@ int parse_addr_mode(struct Lexer *lexer, struct Instruction *instr,
 		addr_mode &= ADDR_MODE_ACCUMULATOR;
 	} else if (operand->value > 0xFF) {
 		// see comment above in parse_label_operand()
-		// operand value might be an absolute address, but a branch
+		// the value of a label might be an absolute address, but a branch
 		// instruction always has an operand that fits in 1 byte
-		if (!is_branch(instr->mnemonic))
+		if (!is_branch(instr->mnemonic) ||
+		    operand->type == TOKEN_LITERAL)
 			addr_mode = ABSOLUTE_FIELD;
 		else
 			addr_mode = ZERO_PAGE_FIELD;
-- 
2.43.0


From d7a1c5d7cc9266afcc2c39ed10a6100ebc5bba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 07/14] fix: read source lines of any length

Lines longer than 127 characters were split, so the rest of a long comment was
assembled as code and all following line numbers were wrong.
---
 src/main.c | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0f30d4b..91f6ba9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -7,6 +7,7 @@ The Gaia assembler for 6502 Assembly.
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "forward_reference.h"
@@ -91,6 +92,7 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
+		free(buffer);                                                \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
 		return EXIT_FAILURE;                                         \
 	} while (0)
@@ -103,7 +105,8 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
-#define MAX_BUFFER_SIZE 128
+// initial size of line buffer
+#define BASE_BUFFER_SIZE 128
 
 /* abort_gaia()
 	@inf            source file
@@ -140,6 +143,35 @@ int abort_gaia(FILE *inf, FILE *outf, struct Lexer *lexer, struct Token *tk,
 	return EXIT_FAILURE;
 }
 
+/* read_line()
+	@buffer         ptr to dynamically allocated line buffer
+	@size           ptr to size of *@buffer
+	@f              source file
+
+	@return         1 if a line was read, 0 if there are no more lines, or
+	                error code
+
+	Read an entire line of source code. The buffer will be resized if the
+	line is too long for it.
+*/
+static int read_line(char **buffer, size_t *size, FILE *f)
+{
+	size_t length = 0;
+	while (fgets(*buffer + length, *size - length, f)) {
+		length += strlen(*buffer + length);
+		// end of line, or last line without newline
+		if (length + 1 < *size || (*buffer)[length - 1] == '\n')
+			return 1;
+
+		char *new_buffer = realloc(*buffer, 2 * *size);
+		if (!new_buffer)
+			return ERROR_MEMORY_ALLOCATION_FAIL;
+		*buffer = new_buffer;
+		*size *= 2;
+	}
+	return length > 0;
+}
+
 int main(int argc, char *argv[])
 {
 	struct Arguments args = {.src_file = NULL, .out_file = "a.out"};//,
@@ -156,7 +188,9 @@ int main(int argc, char *argv[])
 	struct Instruction *instr = init_instruction();
 	struct SymbolTable *symtab = init_symbol_table();
 	struct Unresolved *unresolved = init_unresolved();
-	if (!lexer || !tk || !instr || !symtab || !unresolved) {
+	size_t buffer_size = BASE_BUFFER_SIZE;
+	char *buffer = malloc(buffer_size);
+	if (!lexer || !tk || !instr || !symtab || !unresolved || !buffer) {
 		print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL, NULL,
 		            args.src_file, -1);
 		ABORT_ASSEMBLY();
@@ -175,7 +209,6 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
-	char buffer[MAX_BUFFER_SIZE];
 	int line_num = 1;
 	int return_code;
 	int pc = 0x0;
@@ -185,7 +218,12 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
+	while ((return_code = read_line(&buffer, &buffer_size, inf))) {
+		if (IS_ERROR(return_code)) {
+			print_error(NULL, return_code, NULL, args.src_file, -1);
+			ABORT_ASSEMBLY();
+		}
+
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// parse_line() reports the first bad token of a line with too
 		// many tokens
@@ -276,6 +314,7 @@ int main(int argc, char *argv[])
 
 	fclose(inf);
 	fclose(outf);
+	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
 	destroy_instruction(instr);
-- 
2.43.0


From 703a2b6e40adb05df5aad865b70114b6cc84bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 08/14] fix: do not report success after a read or write error

A source that cannot be read (such as a directory) or an output file that
cannot be written (such as on a full disk) was reported as a successful
assembly with exit status 0.
---
 src/main.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 91f6ba9..e921506 100644
--- a/src/main.c
+++ b/src/main.c
@@ -291,6 +291,12 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
+	if (ferror(inf)) {
+		print_error(NULL, ERROR_FILE_OPEN_FAIL, NULL, args.src_file,
+		            -1);
+		ABORT_ASSEMBLY();
+	}
+
 	int dest_pc;
 	for (int i = 0; i < unresolved->curr; i++) {
 		ref = unresolved->refs[i];
@@ -308,12 +314,19 @@ int main(int argc, char *argv[])
 			ABORT_ASSEMBLY();
 	}
 
+	return_code = ferror(outf);
+	if (fclose(outf) == EOF || return_code) {
+		outf = NULL;
+		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	printf("Assembly successful.\n");
 	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-	fclose(outf);
 	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
-- 
2.43.0


From df64a9fa035b6e32cabb118126a293b195627d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 09/14] fix: do not destroy the source file when it is named as
 output

gaia prog.asm -o prog.asm truncated the source before reading it and reported
a successful assembly of 0 bytes.
---
 src/main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index e921506..596e139 100644
--- a/src/main.c
+++ b/src/main.c
@@ -8,6 +8,7 @@ The Gaia assembler for 6502 Assembly.
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 
 #include "error.h"
 #include "forward_reference.h"
@@ -202,7 +203,13 @@ int main(int argc, char *argv[])
 		            -1);
 		ABORT_ASSEMBLY();
 	}
-	outf = fopen(args.out_file, "wb");
+	// never overwrite the source file
+	struct stat in_stat, out_stat;
+	if (stat(args.src_file, &in_stat) != 0 ||
+	    stat(args.out_file, &out_stat) != 0 ||
+	    in_stat.st_dev != out_stat.st_dev ||
+	    in_stat.st_ino != out_stat.st_ino)
+		outf = fopen(args.out_file, "wb");
 	if (!outf) {
 		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
 		            args.src_file, -1);
-- 
2.43.0


From 71bba6727ed7d2b109a8ef927f9cc6b87a17c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 10/14] fix: reject label operands that do not fit in two bytes

---
 src/generator.c | 8 ++++++++
 src/parser.c    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/generator.c b/src/generator.c
index c4ffdc4..421d761 100644
--- a/src/generator.c
+++ b/src/generator.c
@@ -174,6 +174,14 @@ int resolve_forward_ref(FILE *f, struct ForwardRef *ref, struct Lexer *lexer,
 		            lexer->file_name, lexer->line_num);
 		return ERROR_ILLEGAL_ADDRESSING_MODE;
 	} else if (ref->operand_status == JUMP_FORWARD_REFERENCE) {
+		// a label behind the last address does not fit in an operand
+		if (dest_pc > 0xFFFF) {
+			print_error(ref->source_line, ERROR_TOO_BIG_LITERAL,
+			            ref->operand_location, lexer->file_name,
+			            ref->line_num);
+			return ERROR_TOO_BIG_LITERAL;
+		}
+
 		if (instr->addr_bitflag) {
 			instr->opcode = get_opcode(instr);
 			fseek(f, ref->pc, SEEK_SET);
diff --git a/src/parser.c b/src/parser.c
index 43a9d7b..544f7de 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -385,6 +385,14 @@ int parse_label_operand(struct Lexer *lexer, struct Instruction *instr,
 	int jump = is_jump(instr->mnemonic);
 
 	if (label_value != ERROR_SYMBOL_NOT_FOUND) {
+		// a label behind the last address does not fit in an operand
+		if (label_value > 0xFFFF && !branch) {
+			lexer->error_tk = operand;
+			print_error(lexer->line, ERROR_TOO_BIG_LITERAL,
+			            lexer->error_tk->buffer_location,
+			            lexer->file_name, lexer->line_num);
+			return ERROR_TOO_BIG_LITERAL;
+		}
 		// save value in both symtab and sequence token
 		// allows for faster lookup when we parse the addressing mode
 		operand->value = label_value;
-- 
2.43.0


From c549b547c07b66987cc10adb60e8d17b01cdb8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:39 +0000
Subject: [PATCH 11/14] fix: do not ignore the rest of a line behind a stray
 carriage return or $FF

A carriage return that is not part of a line ending, or a byte $FF, ended the
lexical analysis of its line, so whatever followed was silently left out of a
successful assembly (all but the first line of a text with CR line endings).
---
 src/error.c |  2 +-
 src/lexer.c | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/error.c b/src/error.c
index 4bc501b..dda3a29 100644
--- a/src/error.c
+++ b/src/error.c
@@ -97,7 +97,7 @@ void print_error(const char *line, int error_code, const char *bad_char,
 
 	// skip trailing whitespace
 	const char *end = line + strlen(line) - 1;
-	while (*end == ' ' || *end == '\t' || *end == '\n' || *end == EOF)
+	while (*end == ' ' || *end == '\t' || *end == '\n')
 		end--;
 	for (const char *start = line; start <= end; start++)
 		putchar(*start);
diff --git a/src/lexer.c b/src/lexer.c
index 907ee41..39015b5 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -594,21 +594,25 @@ int lex(const char *buffer, struct Token *tk, struct Instruction *instr)
 }
 
 /* end_line_lexing()
-	@c              current char to check
+	@curr           ptr to current char to check
 
 	@return         1 if end of 6502 source line, 0 if not
 
 	Check if the current character in a line of source code is a signal to
 	end the lexical analysis.
 */
-static int end_line_lexing(char c)
+static int end_line_lexing(const char *curr)
 {
-	switch (c) {
+	switch (*curr) {
 	case '\r':
+		// only part of a line ending
+		return curr[1] == '\n' || curr[1] == '\0';
+	case EOF:
+		// only at the end of the text
+		return curr[1] == '\0';
 	case '\n':
 	case ';':
 	case '\0':
-	case EOF:
 		return 1;
 	}
 	return 0;
@@ -647,7 +651,7 @@ int lex_line(const char *buffer, struct Lexer *lexer, struct Token *tk,
 
 	// tokenize and perform lexical analysis on every token
 	int num_chars;
-	while (!end_line_lexing(*curr)) {
+	while (!end_line_lexing(curr)) {
 		num_chars = lex(curr, tk, instr);
 
 		// negative returns indicate an error code
-- 
2.43.0


From bae377579c6dbbb840e8f1a1dd678489a73df8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:39 +0000
Subject: [PATCH 12/14] fix: do not ignore the rest of a line behind a null
 character

A null character hid the rest of its line, and in a line longer than the line
buffer made the rest of a comment be assembled as code.
---
 src/main.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/main.c b/src/main.c
index 596e139..bb54979 100644
--- a/src/main.c
+++ b/src/main.c
@@ -153,23 +153,27 @@ int abort_gaia(FILE *inf, FILE *outf, struct Lexer *lexer, struct Token *tk,
 	                error code
 
 	Read an entire line of source code. The buffer will be resized if the
-	line is too long for it.
+	line is too long for it. A null character, which would hide the rest of
+	the line, is read as an illegal character.
 */
 static int read_line(char **buffer, size_t *size, FILE *f)
 {
 	size_t length = 0;
-	while (fgets(*buffer + length, *size - length, f)) {
-		length += strlen(*buffer + length);
-		// end of line, or last line without newline
-		if (length + 1 < *size || (*buffer)[length - 1] == '\n')
-			return 1;
-
-		char *new_buffer = realloc(*buffer, 2 * *size);
-		if (!new_buffer)
-			return ERROR_MEMORY_ALLOCATION_FAIL;
-		*buffer = new_buffer;
-		*size *= 2;
+	int c;
+	while ((c = getc(f)) != EOF) {
+		// keep room for the terminator
+		if (length + 1 == *size) {
+			char *new_buffer = realloc(*buffer, 2 * *size);
+			if (!new_buffer)
+				return ERROR_MEMORY_ALLOCATION_FAIL;
+			*buffer = new_buffer;
+			*size *= 2;
+		}
+		(*buffer)[length++] = c == '\0' ? '?' : c;
+		if (c == '\n')
+			break;
 	}
+	(*buffer)[length] = '\0';
 	return length > 0;
 }
 
-- 
2.43.0


From d1d61a834a8e70f092f41bf520ff8b825e836779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 13/14] fix: an output that cannot be positioned gets the
 binary in one piece

Bytes are written out of order, by origins and by forward references. A
pipe cannot be positioned, fseek() failed unnoticed, and the pipe got the
bytes in the wrong order while success was announced.
---
 src/main.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/main.c b/src/main.c
index bb54979..6041060 100644
--- a/src/main.c
+++ b/src/main.c
@@ -94,6 +94,8 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
 		free(buffer);                                                \
+		if (stream)                                                  \
+			fclose(stream);                                      \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
 		return EXIT_FAILURE;                                         \
 	} while (0)
@@ -177,6 +179,24 @@ static int read_line(char **buffer, size_t *size, FILE *f)
 	return length > 0;
 }
 
+/* copy_file()
+	@to             destination file
+	@from           file to copy from its beginning
+
+	@return         0 if everything was copied, nonzero if not
+
+	Copy the contents of a file to another one.
+*/
+static int copy_file(FILE *to, FILE *from)
+{
+	int c;
+	if (fseek(from, 0, SEEK_SET) != 0)
+		return -1;
+	while ((c = getc(from)) != EOF)
+		putc(c, to);
+	return ferror(from) || ferror(to);
+}
+
 int main(int argc, char *argv[])
 {
 	struct Arguments args = {.src_file = NULL, .out_file = "a.out"};//,
@@ -188,6 +208,7 @@ int main(int argc, char *argv[])
 
 	FILE *inf = NULL;
 	FILE *outf = NULL;
+	FILE *stream = NULL;
 	struct Lexer *lexer = init_lexer(args.src_file);
 	struct Token *tk = init_token();
 	struct Instruction *instr = init_instruction();
@@ -214,6 +235,12 @@ int main(int argc, char *argv[])
 	    in_stat.st_dev != out_stat.st_dev ||
 	    in_stat.st_ino != out_stat.st_ino)
 		outf = fopen(args.out_file, "wb");
+	// the binary is not written in order: an output that cannot be
+	// positioned, such as a pipe, gets it in one piece at the end
+	if (outf && fseek(outf, 0, SEEK_SET) != 0) {
+		stream = outf;
+		outf = tmpfile();
+	}
 	if (!outf) {
 		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
 		            args.src_file, -1);
@@ -326,6 +353,11 @@ int main(int argc, char *argv[])
 	}
 
 	return_code = ferror(outf);
+	if (stream) {
+		return_code |= copy_file(stream, outf);
+		return_code |= fclose(stream);
+		stream = NULL;
+	}
 	if (fclose(outf) == EOF || return_code) {
 		outf = NULL;
 		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
-- 
2.43.0


From 179ec5e784a15b2ff7a598db3d381d27e6e0a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:18 +0000
Subject: [PATCH 14/14] fix: the label table keeps growing beyond 21 million
 labels

The load factor was computed in an int that overflowed, the table was not
enlarged any more, and the assembler hung once all 44917381 places were
taken.
---
 src/symbol_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_table.c b/src/symbol_table.c
index dc1237b..b70e677 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -167,7 +167,7 @@ int insert_symbol(struct SymbolTable *symtab, const char *label,
 {
 	// check load factor first
 	// if you insert first then you might have to hash it again -- waste!
-	int load = ((symtab->count + 1) * 100) / symtab->size;
+	int load = ((symtab->count + 1) * 100LL) / symtab->size;
 	if (load > 50) {
 		if (!resize_symbols(symtab))
 			return ERROR_MEMORY_ALLOCATION_FAIL;
-- 
2.43.0

