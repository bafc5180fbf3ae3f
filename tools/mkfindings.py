#!/usr/bin/env python3
"""Writes known-findings.json. Open findings carry a demo that exits non-zero while the defect is there."""
import json, os, subprocess
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
sha={l.split(" ",1)[1]:l.split(" ",1)[0] for l in log}
def c(prefix):
    m=[h for s,h in sha.items() if s.startswith("fix: "+prefix)]
    assert len(m)==1,(prefix,m)
    return m[0]
F=[]
def fixed(prop,prefix,what):
    F.append({"property":prop,"status":"fixed","commit":c(prefix),"what":"fixed: property=%s %s %s"%(prop,c(prefix),what)})
def open_(prop,what,demo):
    F.append({"property":prop,"status":"open","what":what,"demo":demo})
fixed("C02","escape quotes embedded","a quote inside a string or identifier was printed unescaped: wrap_literal(\"a'b\") printed 'a'b'")
fixed("C02","decode unicode string literals","U&'\\0041' was read as the raw escapes")
fixed("C02","quote every identifier","SELECT items, columns and windows named like keywords or with upper case letters were printed unquoted")
fixed("C02","do not pad the line breaks","pretty printing indented the line breaks inside string literals")
fixed("C01","do not print a negated negative","-(-1) was printed as --1, a comment")
fixed("C01","parenthesize predicates, subqueries","(a = b) = c, (a IN (b)) IS NULL, (x -> y)[1], ... were printed without the parentheses")
fixed("C01","print subscripts and dereferences","(a + b)[c] was printed as a + b[c]")
fixed("C01","tell rows apart","ROW(x) was printed as (x)")
fixed("C08","tell rows apart","GROUP BY of a row of two columns read back as a grouping set")
fixed("C01","quote interval values","INTERVAL '1' YEAR was printed without quotes")
fixed("C15","accept the lower case keywords","lower case and, or, in, !=, ... raised or misread")
fixed("C03","print and infer decimal","Decimal('1E+2'), Decimal('5') and 1e20 were printed as other literals")
fixed("C04","print LIMIT 0","LIMIT 0 and OFFSET 0 were dropped")
fixed("C04","print the WITH, ORDER BY","clauses of set queries were dropped")
fixed("C16","read queries in parentheses","(SELECT 1 LIMIT 1) LIMIT 2 and FETCH FIRST lost clauses")
fixed("C05","print WITH ORDINALITY","WITH ORDINALITY was printed letter by letter")
fixed("C05","parenthesize joins","a JOIN (b JOIN c) was printed without parentheses")
fixed("C17","reject malformed SQL","'SELECT 1 FROM' or 'a b c' were half-read")
fixed("C17","reject the SQL constructs","DISTINCT in aggregates, EXISTS, AT TIME ZONE were silently dropped")
fixed("C11","infer the type of TIMESTAMP","TIMESTAMP '...' had the type TIME; DOUBLE PRECISION '1' raised")
fixed("C10","return the common supertype","common types of maps, times, rows were missing or lost precision")
fixed("C06","print NORMALIZE","NORMALIZE(x, NFC) could not be printed")
fixed("C06","print APPROX_PERCENTILE","APPROX_PERCENTILE(x, w, p) printed its arguments in another order; FROM_UNIXTIME(x) raised")
fixed("C06","register every function","functions existed only if their module happened to be imported")
fixed("C18","visit every part","WITH queries, ORDER BY, select lists, aggregate clauses were skipped; visit_Variable was missing")
fixed("C22","print unnamed columns","schema crashed on unnamed columns; tree crashed on WINDOW")
fixed("C22","show every token","antlr-tree dropped or garbled tokens with blanks or parentheses in them")
fixed("C22","show the tree of a type","tree crashed on types")
fixed("C23","do not take a star","SELECT t.*, 1 FROM t UNION SELECT a,'x',1 FROM t was rejected: the star counted as one column")
fixed("C23","take a row of one value","VALUES ROW(1) UNION SELECT 1 was rejected")
fixed("C23","reject lists that must not","empty ROW, IN, VALUES, UNNEST, USING, GROUP BY and star aliases were built and printed as no SQL")
fixed("C23","reject intervals that end","INTERVAL '1' DAY TO WEEK was built")
fixed("C19","bind lambda variables","columns of a subquery in a lambda body were bound as lambda parameters")
fixed("C14","resolve the columns","qualified, aliased, joined and CTE columns took the type of another column or crashed")
fixed("C14","look up tables apart","FROM t b JOIN b gave the right relation the columns of the left alias; columns of named queries leaked into UNNEST")
fixed("C14","take the type of a USING column","USING(a) took the type from two columns of one side")
fixed("C14","accept column aliases of a star","SELECT q.* AS (a,b) over a table with unknown columns raised or lost the aliases")
fixed("C12","tell nodes of different classes","a + b equals a - b was true for nodes nested in lists")
fixed("C02","tell empty identifiers","OVER (\"\" ...) lost the window name, \"c\".\"\".\"t\" was rejected as a table without schema")
fixed("C17","reject dereferences of a qualified","\"\".a.b was read as a.b")
fixed("C17","reject windows with the same","WINDOW w AS (...), w AS (...) lost the first window")
fixed("C17","reject Unicode escape characters","U&'x' UESCAPE 'a' was read though no escape can be told from a digit")
fixed("C17","reject escaped surrogates","U&'\\D800' was read as a lone surrogate")
fixed("C14","update the type of a set query","a UNION of two resolved queries kept the type it had before")
fixed("C09","reject types of negative lengths or scales","DECIMAL(10,-3), VARCHAR(-1), DECIMAL(True,0) and ROW() could be built, and none of them reads back")
Q="from treeno.builder.convert import *\nfrom treeno.base import PrintOptions\n"
open_("C01","a scalar subquery that is no operand (select item, function argument, CASE branch, ORDER BY, ...) is printed without its parentheses: SELECT (SELECT 1) prints as SELECT SELECT 1",
 Q+"q=query_from_sql('SELECT (SELECT 1)')\nassert query_from_sql(str(q)).equals(q)")
open_("C03","a non-finite float has no SQL form but prints as inf or nan; a double without exponent (0.3) prints as a decimal literal (pinned by a test)",
 Q+"from treeno.expression import wrap_literal\nv=wrap_literal(0.3)\nassert expression_from_sql(str(v)).equals(v)")
open_("C11","CASE and ARRAY with branches or elements of different types have the type of the first one (CASE WHEN a THEN 1 ELSE 2.5 END is INTEGER)",
 Q+"from treeno.datatypes.builder import decimal\ne=expression_from_sql('ARRAY[1, 3000000000]')\nassert e.data_type.parameters['dtype'].type_name=='BIGINT'")
json.dump({"findings":F},open(os.path.join(H,"known-findings.json"),"w"),indent=1)
print(len(F))
