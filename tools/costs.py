"""Wall times in seconds (8 cores, seed 1)."""
THOROUGH = dict(C01=12, C02=23, C03=16, C04=66, C05=53, C06=68, C07=36, C08=70, C09=17, C10=34, C11=26, C12=30, C13=16, C14=81, C15=90, C16=7, C17=55, C18=82, C19=26, C20=314, C21=235, C22=118, C23=19, C24=116, C25=267, C26=202, C27=197, C28=438, C29=400, C30=126, C31=400)
QUICK = dict(C01=4, C02=7, C03=5, C04=19, C05=13, C06=18, C07=8, C08=14, C09=5, C10=9, C11=13, C12=9, C13=4, C14=13, C15=19, C16=4, C17=11, C18=10, C19=10, C20=37, C21=28, C22=16, C23=6, C24=22, C25=23, C26=46, C27=21, C28=42, C29=65, C30=25, C31=60)
